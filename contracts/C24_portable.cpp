// The implementations used where x86 instructions are not available.
#define THEORETICA_DISABLE_X86
#include "thvlib.h"
CONTRACT(portable_logarithm) {
	INLINE("_ZN10theoretica2lnEd");
	BOUNDED("portable logarithms: arguments from 1/16 to 16 and powers of two up to 2^1023");
	const int k = (int) PICK("k", 0, 4), inv = (int) PICK("inverse", 0, 1);
	const real f = REAL("f");
	REQUIRES(f > 0.51 && f < 0.99);
	const real y = f * (1 << k), x = inv ? 1 / y : y, l = (inv ? -1 : 1) * thv_ln(y);
	REQUIRES(y != 1);
	ENSURES_NEAR("log2", th::log2(x), l / thv_ln(2), 1E-8);
	ENSURES_NEAR("ln", th::ln(x), l, 1E-8);
	ENSURES_NEAR("log10", th::log10(x), l / thv_ln(10), 1E-8);
	NO_ERROR();
}
CONTRACT(portable_logarithm_of_powers) {
	const int k = (int) PICK("k", -1022, 1023);
	IEEE();
	real x = 1;
	for (int i = 0; i < (k < 0 ? -k : k); i++) x *= 2;
	if (k < 0) x = 1 / x;
	ENSURES("log2(2^k) = k", th::log2(x) == k);
}
CONTRACT(portable_domain) {
	const real x = REAL("x");
	REQUIRES(x < 0);
	const unsigned f = (unsigned) PICK("f", 0, 3);
	const real r = f == 0 ? th::ln(x) : f == 1 ? th::log2(x) : f == 2 ? th::log10(x) : th::sqrt(x);
	ENSURES_NAN("NaN", r);
	SOME_ERROR();
}
CONTRACT(portable_root) {
	BOUNDED("portable square root: powers of 16 from 16^-25 to 16^25");
	IEEE();
	const int k = (int) PICK("k", -25, 25);
	real x = 1, y = 1;
	for (int i = 0; i < (k < 0 ? -k : k); i++) { x *= 16; y *= 4; }
	if (k < 0) { x = 1 / x; y = 1 / y; }
	const real q = th::sqrt(x) / y;
	ENSURES("root", q > 0.99999 && q < 1.00001);
	ENSURES("abs", th::abs(-x) == x && th::abs(x) == x);
}
CONTRACT(portable_sine) {
	BOUNDED("portable sine and cosine: a grid of 401 angles between -20 and 20");
	IEEE();
	const real x = 0.1 * PICK("k", -200, 200);
	ENSURES_NEAR("sine", th::sin(x), thv_sin(x), 1E-9);
	ENSURES_NEAR("cosine", th::cos(x), thv_cos(x), 1E-9);
}
CONTRACT(portable_tangent) {
	BOUNDED("portable tangent: a grid of 200 angles between -10 and 10");
	IEEE();
	const real x = 0.1 * PICK("k", -100, 99) + 0.03;
	const real c = thv_cos(x);
	ENSURES_NEAR("tangent", th::tan(x) * c, thv_sin(x), 1E-9);
}
CONTRACT(portable_nth_root) {
	BOUNDED("portable n-th root: n from 2 to 5, 12 arguments");
	IEEE();
	const int n = (int) PICK("n", 2, 5), k = (int) PICK("k", 1, 12);
	const real x = 0.37 * k * k, y = th::root(x, n);
	real p = 1; for (int i = 0; i < n; i++) p *= y;
	ENSURES_NEAR("y^n = x", p, x, 1E-6 * x);
	NO_ERROR();
}
CONTRACT(portable_sine_all) {
	const int k = (int) PICK("k", -63, 62);
	const real u = REAL("u");
	REQUIRES(u > 0 && u < 0.1);
	const real x = k * 0.1 + u;
	REQUIRES(x > -6.28 && x < 6.28);
	ENSURES_NEAR("sine", th::sin(x), thv_sin(x), 1E-8);
}
CONTRACT(portable_cotangent) {
	BOUNDED("portable cotangent: a grid of 200 angles between -10 and 10");
	IEEE();
	const real x = 0.1 * PICK("k", -100, 99) + 0.03;
	const real s = thv_sin(x);
	ENSURES_NEAR("cotangent", th::cot(x) * s, thv_cos(x), 1E-9);
	NO_ERROR();
}
