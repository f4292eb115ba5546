// Shared helpers of the contract files: symbolic values of the library's types and specification functions.
#pragma once
#include "thv.h"
#include "theoretica.h"
using namespace theoretica;

template<unsigned N, unsigned K> inline mat<real, N, K> sym_mat(const char* n) {
	mat<real, N, K> A;
	for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < K; j++) A(i, j) = REAL(n);
	return A;
}
inline mat<real> sym_dmat(const char* n, unsigned r, unsigned c) {
	mat<real> A(r, c);
	for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) A(i, j) = REAL(n);
	return A;
}
template<unsigned N> inline vec<real, N> sym_vec(const char* n) {
	vec<real, N> v;
	for (unsigned i = 0; i < N; i++) v[i] = REAL(n);
	return v;
}
inline vec<real> sym_dvec(const char* n, unsigned k) {
	vec<real> v(k);
	for (unsigned i = 0; i < k; i++) v[i] = REAL(n);
	return v;
}
inline std::vector<real> sym_stdvec(const char* n, unsigned k) {
	std::vector<real> v(k);
	for (unsigned i = 0; i < k; i++) v[i] = REAL(n);
	return v;
}
// one of lo ... hi, or one of the given larger values
template<typename... T> inline unsigned PICK_OR(const char* n, unsigned lo, unsigned hi, T... more) {
	const unsigned big[] = {(unsigned) more...};
	const unsigned k = (unsigned) PICK(n, 0, (long) (hi - lo + sizeof...(T)));
	return k <= hi - lo ? lo + k : big[k - (hi - lo) - 1];
}
// fn(sym(x, b)) carries value and derivative
#define NO_ERROR() ENSURES("no error is raised", errno == 0)
#define SOME_ERROR() ENSURES("errno is set", errno != 0)
// an exponent: -24 ... 24 and some larger ones of either sign
inline int ANY_EXPONENT() {
	const int n = (int) PICK_OR("exponent", 0, 24, 31, 32, 33, 63, 64, 65, 100, 127);
	return PICK("negative", 0, 1) ? -n : n;
}
#define EXPONENTS "exponents up to 24, 31-33, 63-65, 100 and 127, of either sign"
// given data (ascending, descending, alternating, constant, scattered) with one arbitrary element
inline real probe_value(unsigned i, unsigned n, unsigned pattern) {
	switch (pattern) {
		case 0: return (real) (int) (i + 1);
		case 1: return (real) (int) (n - i) + 0.5;
		case 2: return (i % 2 ? -1.0 : 1.0) * (real) (int) (i % 7 + 1);
		case 3: return -2.0;
		default: return (real) (int) ((i * 2654435761u) % 1000u) / 8 - 50.0625;
	}
}
template<class V> inline V probe_data(const char* name, unsigned n, unsigned pattern, unsigned pos) {
	V v; v.resize(n);
	for (unsigned i = 0; i < n; i++) v[i] = i == pos ? REAL(name) : probe_value(i, n, pattern);
	return v;
}
// the same, with the arbitrary element above, below or amid the others
template<class V> inline V band_data(const char* name, unsigned n, unsigned pattern, unsigned pos) {
	V v = probe_data<V>(name, n, pattern, pos); const unsigned band = (unsigned) PICK("band", 0, 3);
	REQUIRES(band == 0 ? v[pos] > 1E6 : band == 1 ? v[pos] < -1E6 : band == 2 ? v[pos] > 0 && v[pos] < 0.0625 : v[pos] > 4 && v[pos] < 4.0625);
	return v;
}
#define PROBES "one arbitrary element (first, middle, last) among given ones"
inline unsigned PROBE_POS(unsigned n) { const unsigned k = (unsigned) PICK("pos", 0, 2); return k == 0 ? 0 : k == 1 ? n / 2 : n - 1; }
