#include "thvlib.h"
// The Fast Fourier Transform against the definition of the Discrete Fourier Transform.
typedef complex<real> cplx;
static cvec signal_of(unsigned n) {
	cvec x(n);
	for (unsigned i = 0; i < n; i++) { const real a = REAL("re"), b = REAL("im"); x[i] = cplx(a, b); }
	return x;
}
// k-th coefficient of the transform, with phase exp(sign * 2 pi i j k / n)
static cplx dft(const cvec& x, unsigned k, int sign) {
	const unsigned n = x.size();
	real re = 0, im = 0;
	for (unsigned j = 0; j < n; j++) {
		const real t = 2 * PI * (real) ((j * k) % n) / (real) n, c = thv_cos(t), s = sign * thv_sin(t);
		const real a = x[j].Re(), b = x[j].Im();
		re += a * c - b * s;
		im += a * s + b * c;
	}
	return cplx(re, im);
}
CONTRACT(transform) {
	BOUNDED("sizes 1, 2, 4, ..., 32 (64)");
	const unsigned n = 1u << (unsigned) PICK("log2 of the size", 0, TIER(5, 6));
	const cvec x = signal_of(n), c = x, y = signal::fft(x);
	ENSURES("size", y.size() == n);
	for (unsigned k = 0; k < n; k++) {
		const cplx d = dft(x, k, -1);
		ENSURES_EQ("real part of the transform", y[k].Re(), d.Re());
		ENSURES_EQ("imaginary part of the transform", y[k].Im(), d.Im());
		ENSURES_EQ("the input is unchanged", x[k].Re(), c[k].Re());
		ENSURES_EQ("the input is unchanged", x[k].Im(), c[k].Im());
	}
	NO_ERROR();
}
CONTRACT(inverse) {
	BOUNDED("sizes 1, 2, 4, ..., 32 (64)");
	const unsigned n = 1u << (unsigned) PICK("log2 of the size", 0, TIER(5, 6));
	const cvec x = signal_of(n), y = PICK("form", 0, 1) ? signal::ifft(x) : signal::fft(x, true);
	ENSURES("size", y.size() == n);
	for (unsigned k = 0; k < n; k++) {
		const cplx d = dft(x, k, 1);
		ENSURES_EQ("real part of the inverse", y[k].Re(), d.Re() / n);
		ENSURES_EQ("imaginary part of the inverse", y[k].Im(), d.Im() / n);
	}
	NO_ERROR();
}
// Larger transforms of given data, in floating point
CONTRACT(large_transform) {
	IEEE();
	BOUNDED("sizes 64 to 512, given data, some coefficients of each");
	const unsigned n = 64u << (unsigned) PICK("size", 0, 3), inv = (unsigned) PICK("inverse", 0, 1), pat = (unsigned) PICK("data", 0, 2);
	cvec x(n);
	for (unsigned i = 0; i < n; i++) x[i] = pat == 2 ? cplx(i == n / 2 + 5 ? 1 : 0, 0) : cplx(probe_value(i, n, pat ? 4 : 2), (real) (int) (i * 5 % 11) - 3);
	const cvec y = inv ? signal::ifft(x) : signal::fft(x);
	ENSURES("size", y.size() == n);
	real c[1024], s[1024];
	for (unsigned j = 0; j < n; j++) { const real t = 2 * PI * (real) j / (real) n; c[j] = thv_cos(t); s[j] = (inv ? 1 : -1) * thv_sin(t); }
	const unsigned ks[8] = {0, 1, 3, n / 4, n / 2 - 1, n / 2, n / 2 + 7, n - 1};
	for (unsigned q = 0; q < 8; q++) {
		real re = 0, im = 0, size = 1;
		for (unsigned j = 0; j < n; j++) {
			const unsigned m = (j * ks[q]) % n;
			const real a = x[j].Re(), b = x[j].Im();
			re += a * c[m] - b * s[m]; im += a * s[m] + b * c[m]; size += (a < 0 ? -a : a) + (b < 0 ? -b : b);
		}
		const real f = inv ? 1 / (real) n : 1;
		ENSURES_NEAR("real part", y[ks[q]].Re(), re * f, 1E-9 * size);
		ENSURES_NEAR("imaginary part", y[ks[q]].Im(), im * f, 1E-9 * size);
	}
	NO_ERROR();
}
CONTRACT(round_trip) {
	BOUNDED("sizes 1, 2, 4, 8, 16 (32)");
	const unsigned n = 1u << (unsigned) PICK("log2 of the size", 0, TIER(4, 5));
	const cvec x = signal_of(n), y = signal::ifft(signal::fft(x)), z = signal::fft(signal::ifft(x));
	for (unsigned k = 0; k < n; k++) {
		ENSURES_EQ("inverse of the transform", y[k].Re(), x[k].Re());
		ENSURES_EQ("inverse of the transform", y[k].Im(), x[k].Im());
		ENSURES_EQ("transform of the inverse", z[k].Re(), x[k].Re());
		ENSURES_EQ("transform of the inverse", z[k].Im(), x[k].Im());
	}
	NO_ERROR();
}
CONTRACT(fixed_size) {
	BOUNDED("vectors of fixed size 8");
	typedef vec<cplx, 8> V;
	const cvec x = signal_of(8);
	V v;
	for (unsigned i = 0; i < 8; i++) v[i] = x[i];
	const V y = signal::fft<V>(v), z = signal::ifft<V>(y);
	for (unsigned k = 0; k < 8; k++) {
		const cplx d = dft(x, k, -1);
		ENSURES_EQ("real part of the transform", y[k].Re(), d.Re());
		ENSURES_EQ("imaginary part of the transform", y[k].Im(), d.Im());
		ENSURES_EQ("inverse of the transform", z[k].Re(), x[k].Re());
		ENSURES_EQ("inverse of the transform", z[k].Im(), x[k].Im());
	}
	NO_ERROR();
}
CONTRACT(energy) {
	BOUNDED("sizes 1, 2, 4, 8, 16");
	const unsigned n = 1u << (unsigned) PICK("log2 of the size", 0, 4);
	const cvec x = signal_of(n), y = signal::fft(x);
	real e = 0, f = 0;
	for (unsigned k = 0; k < n; k++) {
		e += x[k].Re() * x[k].Re() + x[k].Im() * x[k].Im();
		f += y[k].Re() * y[k].Re() + y[k].Im() * y[k].Im();
	}
	ENSURES_EQ("Parseval", f, n * e);
}
CONTRACT(wrong_size) {
	BOUNDED("sizes up to 40 and some up to 1000");
	const unsigned n = (unsigned) PICK_OR("size", 0, 40, 48, 63, 65, 96, 100, 127, 129, 384, 1000);
	if (n && !(n & (n - 1))) return;
	const cvec x = signal_of(n), y = PICK("inverse", 0, 1) ? signal::ifft(x) : signal::fft(x);
	ENSURES("size", y.size() == n);
	for (unsigned k = 0; k < n; k++) ENSURES_NAN("NaN", y[k].Re());
	SOME_ERROR();
}
// Bit operations under the transform and the generators
CONTRACT(bit_reverse) {
	BOUNDED("sizes 1 to 512, also larger than 2^m");
	const unsigned m = (unsigned) PICK("bits", 0, 9), extra = (unsigned) PICK("extra", 0, 2), n = (1u << m) + extra;
	const std::vector<real> v = sym_stdvec("v", n);
	vec<real> x(n);
	for (unsigned i = 0; i < n; i++) x[i] = v[i];
	swap_bit_reverse(x, m);
	for (unsigned i = 0; i < n; i++) {
		unsigned r = 0;
		for (unsigned k = 0; k < m; k++) if (i & (1u << k)) r += 1u << (m - 1 - k);
		ENSURES_EQ("element at the reversed index", x[i], i < (1u << m) ? v[r] : v[i]);
	}
	NO_ERROR();
}
CONTRACT(bit_reverse_domain) {
	BOUNDED("sizes up to 256");
	const unsigned m = (unsigned) PICK("bits", 1, 8), n = (1u << m) - (unsigned) PICK("missing", 1, 2);
	const std::vector<real> v = sym_stdvec("v", n);
	vec<real> x(n);
	for (unsigned i = 0; i < n; i++) x[i] = v[i];
	swap_bit_reverse(x, m);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("unchanged", x[i], v[i]);
	SOME_ERROR();
}
