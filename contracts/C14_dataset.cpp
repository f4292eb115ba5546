#include "thvlib.h"
// sizes covered: around the unrolled start, and on both sides of the default base of the pairwise sum
static unsigned some_size(const char* n) {
	static const unsigned S[] = { 0, 1, 2, 3, 4, 5, 8, 17, 128, 129, 130, 33, 64, 65, 100, 261, 300, 515 };
	return S[PICK(n, 0, TIER(15, 17))];
}
#define SIZES "datasets of 0-5, 8, 17, 33, 64, 65, 100, 128-130, 261 (300, 515) elements"
template<class V> static V sym_data(const char* n, unsigned k) {
	V v;
	v.resize(k);
	for (unsigned i = 0; i < k; i++) v[i] = REAL(n);
	return v;
}
typedef std::vector<real> SV;
typedef vec<real> DV;
template<class V> static void reductions(const V& X, const V& Y, const V& Z) {
	const unsigned n = X.size();
	real s = 0, p = 1, s2 = 0, sxy = 0, sxyz = 0, sx2y2 = 0;
	for (unsigned i = 0; i < n; i++) {
		s += X[i]; p *= X[i]; s2 += X[i] * X[i]; sxy += X[i] * Y[i]; sxyz += X[i] * Y[i] * Z[i];
		sx2y2 += X[i] * X[i] * Y[i] * Y[i];
	}
	errno = 0;
	ENSURES_EQ("sum", sum(X), s);
	ENSURES_EQ("sum_pairwise", sum_pairwise(X), s);
	NO_ERROR();
	if (n == 0) {
		errno = 0; ENSURES_NAN("product", product(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("product_sum", product_sum(X, Y)); SOME_ERROR();
		errno = 0; ENSURES_NAN("product_sum of 3", product_sum(X, Y, Z)); SOME_ERROR();
		errno = 0; ENSURES_NAN("product_sum_squares", product_sum_squares(X, Y)); SOME_ERROR();
		errno = 0; ENSURES_NAN("sum_squares", sum_squares(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("quotient_sum", quotient_sum(X, Y)); SOME_ERROR();
		errno = 0; ENSURES_NAN("arithmetic_mean", arithmetic_mean(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("harmonic_mean", harmonic_mean(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("quadratic_mean", quadratic_mean(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("max", max(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("min", min(X)); SOME_ERROR();
		return;
	}
	ENSURES_EQ("product", product(X), p);
	ENSURES_EQ("product_sum", product_sum(X, Y), sxy);
	ENSURES_EQ("product_sum of 3", product_sum(X, Y, Z), sxyz);
	ENSURES_EQ("product_sum_squares", product_sum_squares(X, Y), sx2y2);
	ENSURES_EQ("sum_squares", sum_squares(X), s2);
	ENSURES_EQ("arithmetic_mean", arithmetic_mean(X), s / n);
	if (n <= 8) ENSURES_EQ("quadratic_mean", quadratic_mean(X), thv_sqrt(s2 / n));
	NO_ERROR();
}
CONTRACT(reductions_std) {
	const unsigned n = some_size("n");
	BOUNDED(SIZES);
	reductions(sym_data<SV>("x", n), sym_data<SV>("y", n), sym_data<SV>("z", n));
}
CONTRACT(reductions_vec) {
	const unsigned n = some_size("n");
	BOUNDED(SIZES);
	reductions(sym_data<DV>("x", n), sym_data<DV>("y", n), sym_data<DV>("z", n));
}
CONTRACT(reductions_fixed) {
	reductions(sym_vec<4>("x"), sym_vec<4>("y"), sym_vec<4>("z"));
	reductions(sym_vec<1>("x"), sym_vec<1>("y"), sym_vec<1>("z"));
}
// the bounds and the base size of the pairwise sum select exactly the elements of [begin, end)
CONTRACT(pairwise_ranges) {
	const unsigned n = (unsigned) PICK("n", 0, 9), base = (unsigned) PICK("base", 0, 4);
	const unsigned b = (unsigned) PICK("begin", 0, 3), e = (unsigned) PICK("end", 0, 9);
	REQUIRES(e <= n && (e == 0 ? b <= n : b <= e));
	BOUNDED("pairwise sums of up to 9 elements with base sizes up to 4");
	const SV X = sym_data<SV>("x", n);
	real s = 0;
	for (unsigned i = b; i < (e ? e : n); i++) s += X[i];
	ENSURES_EQ("sum of the range", sum_pairwise(X, b, e, base), s);
}
CONTRACT(compensated) {
	const unsigned n = (unsigned) PICK("n", 0, 4);
	BOUNDED("compensated sums of up to 4 elements");
	const SV X = sym_data<SV>("x", n);
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += X[i];
	ENSURES_EQ("sum", sum_compensated(X), s);
}
// in machine arithmetic the lost low order part is recovered
CONTRACT(compensated_ieee) {
	IEEE();
	static const real B[] = { 1E17, 0x1p60, 1E100, 3E20, 0x1p53 }, S[] = { 1.0, 0.1, 3.5, 1E-3, 0.3 };
	const real b = B[PICK("big", 0, 4)], a = S[PICK("small", 0, 4)];
	const SV X = { a, b, a, -b }, Y = { b, a, a, -b }, Z = { b, -b, a }, W = { a, -b, b, -a, a };
	ENSURES("small, big, small, -big", sum_compensated(X) == 2 * a);
	ENSURES("big, small, small, -big", sum_compensated(Y) == 2 * a);
	ENSURES("big, -big, small", sum_compensated(Z) == a);
	ENSURES("small, -big, big, -small, small", sum_compensated(W) == a);
}
CONTRACT(size_mismatch) {
	const unsigned n = (unsigned) PICK("n", 0, 3), m = (unsigned) PICK("m", 0, 3), k = (unsigned) PICK("k", 0, 3);
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", m), Z = sym_data<SV>("z", k);
	BOUNDED("datasets of up to 3 elements");
	if (n != m) {
		errno = 0; ENSURES_NAN("product_sum", product_sum(X, Y)); SOME_ERROR();
		errno = 0; ENSURES_NAN("product_sum_squares", product_sum_squares(X, Y)); SOME_ERROR();
		errno = 0; ENSURES_NAN("quotient_sum", quotient_sum(X, Y)); SOME_ERROR();
	}
	if (n != m || n != k) { errno = 0; ENSURES_NAN("product_sum of 3", product_sum(X, Y, Z)); SOME_ERROR(); }
}
CONTRACT(quotients) {
	const unsigned n = (unsigned) PICK("n", 1, TIER(3, 4));
	BOUNDED("quotient sums and harmonic means of up to 3 (4) elements");
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n);
	real s = 0, h = 0;
	bool zero = false;
	for (unsigned i = 0; i < n; i++) {
		REQUIRES(Y[i] == 0 || Y[i] > 1E-10 || Y[i] < -1E-10);
		if (Y[i] == 0) zero = true;
	}
	errno = 0;
	const real q = quotient_sum(X, Y);
	const bool qe = errno != 0;
	errno = 0;
	const real m = harmonic_mean(Y);
	const bool he = errno != 0;
	if (zero) {
		ENSURES_NAN("division by zero", q); ENSURES("errno is set", qe);
		ENSURES_NAN("harmonic mean with a zero", m); ENSURES("errno is set", he);
		return;
	}
	for (unsigned i = 0; i < n; i++) { s += X[i] / Y[i]; h += 1 / Y[i]; }
	ENSURES("no error", !qe && !he);
	ENSURES_EQ("quotient_sum", q, s);
	REQUIRES(h != 0);
	ENSURES_EQ("harmonic mean", m, n / h);
}
CONTRACT(weighted) {
	const unsigned n = some_size("n");
	BOUNDED(SIZES);
	const DV X = sym_data<DV>("x", n), W = sym_data<DV>("w", n);
	real s = 0, w = 0;
	for (unsigned i = 0; i < n; i++) { s += X[i] * W[i]; w += W[i]; }
	REQUIRES(w != 0);
	ENSURES_EQ("weighted mean", weighted_mean(X, W), s / w);
}
CONTRACT(geometric) {
	const unsigned n = (unsigned) PICK("n", 1, 3);
	BOUNDED("geometric means of up to 3 elements");
	const SV X = sym_data<SV>("x", n);
	real p = 1;
	for (unsigned i = 0; i < n; i++) { REQUIRES(X[i] > 0.5 && X[i] < 2); p *= X[i]; }
	const real m = geometric_mean(X);
	real q = 1;
	for (unsigned i = 0; i < n; i++) q *= m;
	ENSURES_EQ("power of the mean is the product", q, p);
}
template<class V> static void extremes(const V& X) {
	const real M = max(X), m = min(X);
	bool isM = false, ism = false, ge = true, le = true;
	for (unsigned i = 0; i < X.size(); i++) {
		if (M == X[i]) isM = true;
		if (m == X[i]) ism = true;
		if (X[i] > M) ge = false;
		if (X[i] < m) le = false;
	}
	ENSURES("max is an element", isM);
	ENSURES("min is an element", ism);
	ENSURES("max is not exceeded", ge);
	ENSURES("min is not exceeded", le);
}
CONTRACT(extremes_std) {
	BOUNDED("datasets of up to 4 (5) elements");
	extremes(sym_data<SV>("x", (unsigned) PICK("n", 1, TIER(4, 5))));
}
CONTRACT(extremes_vec) {
	BOUNDED("vectors of up to 4 elements");
	extremes(sym_data<DV>("x", (unsigned) PICK("n", 1, 4)));
}
CONTRACT(extremes_fixed) {
	extremes(sym_vec<3>("x"));
}
static real F(real x) { return thv_fn1("f", x); }
template<class V> static void maps(const V& X) {
	const unsigned n = X.size();
	V Y = X;
	V& r = apply(F, Y);
	ENSURES("apply returns its argument", &r == &Y && Y.size() == n);
	V D = X;
	V& d = map(F, X, D);
	ENSURES("map returns the destination", &d == &D && D.size() == n);
	const V R = map(F, X);
	const SV Q = map<SV, V>(F, X);
	ENSURES("size", R.size() == n && Q.size() == n);
	for (unsigned i = 0; i < n; i++) {
		ENSURES_EQ("apply", Y[i], F(X[i]));
		ENSURES_EQ("map to a destination", D[i], F(X[i]));
		ENSURES_EQ("map", R[i], F(X[i]));
		ENSURES_EQ("map to another type", Q[i], F(X[i]));
	}
	NO_ERROR();
}
CONTRACT(maps_std) { BOUNDED(SIZES); errno = 0; maps(sym_data<SV>("x", some_size("n"))); }
CONTRACT(maps_vec) { BOUNDED(SIZES); errno = 0; maps(sym_data<DV>("x", some_size("n"))); }
CONTRACT(maps_fixed) { errno = 0; maps(sym_vec<5>("x")); }
CONTRACT(map_wrong_size) {
	const unsigned n = (unsigned) PICK("n", 0, 3), m = (unsigned) PICK("m", 0, 3);
	REQUIRES(n != m);
	BOUNDED("up to 3 elements");
	const SV X = sym_data<SV>("x", n);
	SV Y = sym_data<SV>("y", m);
	errno = 0;
	map(F, X, Y);
	SOME_ERROR();
	for (unsigned i = 0; i < Y.size(); i++) ENSURES_NAN("NaN", Y[i]);
	DV Z = sym_data<DV>("y", m);
	errno = 0;
	map(F, X, Z);
	SOME_ERROR();
	for (unsigned i = 0; i < Z.size(); i++) ENSURES_NAN("NaN", Z[i]);
	vec<real, 4> V = sym_vec<4>("v");
	errno = 0;
	map(F, X, V);
	SOME_ERROR();
	for (unsigned i = 0; i < V.size(); i++) ENSURES_NAN("NaN", V[i]);
}
template<class A, class B> static void concat(const A& X, const B& Y) {
	const unsigned n = X.size(), m = Y.size();
	const A R = concatenate(X, Y);
	ENSURES("size", R.size() == n + m);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("first part", R[i], X[i]);
	for (unsigned i = 0; i < m; i++) ENSURES_EQ("second part", R[n + i], Y[i]);
}
CONTRACT(concatenation) {
	const unsigned n = some_size("n"), m = (unsigned) PICK("m", 0, 4);
	BOUNDED(SIZES);
	concat(sym_data<SV>("x", n), sym_data<SV>("y", m));
	concat(sym_data<DV>("x", n), sym_data<SV>("y", m));
	concat(sym_data<SV>("x", m), sym_data<DV>("y", n));
}
// larger data sets
CONTRACT(compensated_large) {
	BOUNDED("5 to 10, 33, 100 elements, " PROBES);
	const unsigned n = PICK_OR("n", 5, 10, 33, 100), k = (unsigned) PICK("pattern", 0, 4);
	const SV X = band_data<SV>("x", n, k, PROBE_POS(n)); real s = 0; for (unsigned i = 0; i < n; i++) s += X[i];
	ENSURES_EQ("sum", sum_compensated(X), s);
}
CONTRACT(extremes_large) {
	BOUNDED("5 to 10, 17, 33, 65, 100, 200 elements, " PROBES);
	const unsigned n = PICK_OR("n", 5, 10, 17, 33, 65, 100, 200), k = (unsigned) PICK("pattern", 0, 4), p = PROBE_POS(n);
	if (PICK("container", 0, 1)) extremes(band_data<SV>("x", n, k, p)); else extremes(band_data<DV>("x", n, k, p));
}
CONTRACT(quotients_large) {
	BOUNDED("4 to 10, 33, 100 elements, " PROBES);
	const unsigned n = PICK_OR("n", 4, 10, 33, 100), p = PROBE_POS(n);
	const DV X = sym_data<DV>("x", n), Y = probe_data<DV>("y", n, (unsigned) PICK("pattern", 0, 4), p);
	REQUIRES(Y[p] == 0 || Y[p] > 1E-10 || Y[p] < -1E-10);
	errno = 0; const real q = quotient_sum(X, Y); const bool qe = errno != 0;
	errno = 0; const real m = harmonic_mean(Y); const bool he = errno != 0;
	if (Y[p] == 0) { ENSURES("an error", qe && he); ENSURES_NAN("division by zero", q); ENSURES_NAN("harmonic mean with a zero", m); return; }
	real s = 0, h = 0; for (unsigned i = 0; i < n; i++) { s += X[i] / Y[i]; h += 1 / Y[i]; }
	ENSURES("no error", !qe && !he); ENSURES_EQ("quotient_sum", q, s); REQUIRES(h != 0); ENSURES_EQ("harmonic mean", m, n / h);
}
CONTRACT(quadratic_mean_large) {
	BOUNDED("9 to 12, 33, 100 elements, " PROBES);
	const unsigned n = PICK_OR("n", 9, 12, 33, 100); const SV X = probe_data<SV>("x", n, (unsigned) PICK("pattern", 0, 4), PROBE_POS(n));
	real s = 0; for (unsigned i = 0; i < n; i++) s += X[i] * X[i];
	const real q = quadratic_mean(X); ENSURES_EQ("quadratic_mean", q * q, s / n); ENSURES("nonnegative", q >= 0);
}
CONTRACT(size_mismatch_large) {
	BOUNDED("two lengths among 7, 16, 100");
	static const unsigned S[] = { 7, 16, 100 }; const unsigned n = S[PICK("n", 0, 2)], m = S[PICK("m", 0, 2)]; REQUIRES(n != m);
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", m);
	errno = 0; ENSURES_NAN("product_sum", product_sum(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("product_sum_squares", product_sum_squares(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("quotient_sum", quotient_sum(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("product_sum of 3", product_sum(X, X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("product_sum of 3", product_sum(X, Y, Y)); SOME_ERROR();
}
