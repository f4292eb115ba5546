#include "thvlib.h"
// Elementary functions against their defining equations; the bodies of exp, expm1, atan and cbrt against the true
// function with an error bound (exact arithmetic, Taylor models); th::exp, ln, atan, cbrt elsewhere by these contracts.
#define ANY_ERROR_NAN(r) do { ENSURES_NAN("NaN", r); SOME_ERROR(); } while (0)
CONTRACT(square_root) {
	const real x = REAL("x");
	const real r = sqrt(x);
	if (x < 0) { ANY_ERROR_NAN(r); return; }
	ENSURES("not negative", r >= 0);
	ENSURES_EQ("r^2 = x", r * r, x);
	NO_ERROR();
}
CONTRACT(logarithms) {
	INLINE("_ZN10theoretica2lnEd");
	const real x = REAL("x");
	REQUIRES(x > 0);
	ENSURES_EQ("ln", ln(x), thv_ln(x));
	ENSURES_EQ("log2", log2(x), thv_ln(x) / thv_ln(2));
	ENSURES_EQ("log10", log10(x), thv_ln(x) / thv_ln(10));
	NO_ERROR();
}
CONTRACT(logarithms_domain) {
	const real x = REAL("x");
	REQUIRES(x <= 0);
	const unsigned f = (unsigned) PICK("f", 0, 2);
	const real r = f == 0 ? ln(x) : f == 1 ? log2(x) : log10(x);
	SOME_ERROR();
	ENSURES("-inf at zero, NaN below", x == 0 ? thv_isinf(r) && r < 0 : thv_isnan(r));
}
// ---- exponential
CONTRACT(exp_body) {
	INLINE("_ZN10theoretica3expEd");
	BOUNDED("exp: arguments up to 16 (quick) or 64 (thorough) in modulus");
	const int n = (int) PICK("n", 0, TIER(15, 63));
	const real f = REAL("f");
	REQUIRES(f >= 0 && f < 1);
	const real x = n + f, y = thv_exp(x);
	ENSURES_NEAR("e^x", exp(x), y, 2E-15 * y);
	NO_ERROR();
}
CONTRACT(exp_negative) {
	INLINE("_ZN10theoretica3expEd");
	BOUNDED("exp: arguments down to -16 (quick) or -64 (thorough)");
	const int n = (int) PICK("n", 0, TIER(15, 63));
	const real f = REAL("f");
	REQUIRES(f >= 0 && f < 1 && n + f > 0);
	const real x = n + f, y = 1 / thv_exp(x);
	ENSURES_NEAR("e^-x", exp(-x), y, 2E-15 * y);
}
CONTRACT(exp_special) {
	INLINE("_ZN10theoretica3expEd");
	const real x = REAL("x");
	REQUIRES(x > 1024);
	ENSURES("infinite when not representable", thv_isinf(exp(x)) && exp(x) > 0);
	ENSURES_EQ("null when not representable", exp(-x), 0.0);
	ENSURES("exp(inf)", thv_isinf(exp(inf())));
	ENSURES_EQ("exp(-inf)", exp(-inf()), 0.0);
	ENSURES_NAN("exp(NaN)", exp(nan()));
}
CONTRACT(expm1_small) {
	const real x = REAL("x");
	REQUIRES(x >= -0.001 && x <= 0.001);
	ENSURES_NEAR("e^x - 1", expm1(x), thv_exp(x) - 1, 1E-17);
}
CONTRACT(expm1_big) {
	const real x = REAL("x");
	REQUIRES(x > 0.0011 || x < -0.0011);
	ENSURES_EQ("e^x - 1", expm1(x), thv_exp(x) - 1);
}
CONTRACT(real_power) {
	const real x = REAL("x"), a = REAL("a");
	REQUIRES(x > 0);
	ENSURES_EQ("x^a = e^(a ln x)", powf(x, a), thv_exp(a * thv_ln(x)));
	NO_ERROR();
}
// ---- roots
CONTRACT(cubic_root_body) {
	INLINE("_ZN10theoretica4cbrtEd");
	BOUNDED("cbrt: arguments from 1 to 4 (quick) or 64 (thorough)");
	const int k = (int) PICK("k", 0, TIER(1, 5));
	const real x = REAL("x");
	REQUIRES(x >= (1 << k) && x < (2 << k));
	const real y = cbrt(x);
	ENSURES_NEAR("y^3 = x within the tolerance", y * y * y, x, 1E-8);
	NO_ERROR();
}
CONTRACT(cubic_root_small) {
	INLINE("_ZN10theoretica4cbrtEd");
	BOUNDED("cbrt: arguments from 1/2 (quick) or 1/8 (thorough) to 1 and opposites");
	const real u = REAL("u");
	const int k = (int) PICK("k", 0, TIER(0, 2)), neg = (int) PICK("neg", 0, 1);
	REQUIRES(u > (1 << k) && u < (2 << k));
	const real y = cbrt((neg ? -1 : 1) / u), z = (neg ? -1 : 1) / y;
	ENSURES_NEAR("y^3 = 1 / u within the tolerance", z * z * z, u, 1E-8);
}
CONTRACT(cubic_root_big) {
	BOUNDED("cbrt: powers of 100 from 1E-300 to 1E+300, IEEE arithmetic");
	IEEE();
	const int e = (int) PICK("e", -150, 150);
	real x = 1;
	for (int i = 0; i < (e < 0 ? -e : e); i++) x *= 100;
	if (e < 0) x = 1 / x;
	const real y = cbrt(x), c = y * y * y / x;
	ENSURES("y^3 = x", c > 0.9999999 && c < 1.0000001);
	const real z = cbrt(-x), d = z * z * z / -x;
	ENSURES("negative x", z < 0 && d > 0.9999999 && d < 1.0000001);
}
CONTRACT(roots) {
	const int n = (int) PICK("n", -12, 12);
	BOUNDED("roots of order up to 12");
	const real x = REAL("x");
	REQUIRES(n != 0 && x > 0);
	const real y = root(x, n);
	ENSURES("positive", y > 0);
	real p = 1;
	for (int i = 0; i < (n < 0 ? -n : n); i++) p *= y;
	ENSURES_EQ("y^n = x", n < 0 ? 1 / p : p, x);
	NO_ERROR();
}
CONTRACT(roots_negative) {
	const int n = (int) PICK("n", -12, 12);
	BOUNDED("roots of order up to 12");
	const real x = REAL("x");
	REQUIRES(x < 0);
	const real y = root(x, n);
	if (n % 2 == 0) { ANY_ERROR_NAN(y); return; }
	ENSURES_EQ("odd", y, -root(-x, n));
	NO_ERROR();
}
CONTRACT(root_of_order_zero) { const real y = root(REAL("x"), 0); ANY_ERROR_NAN(y); }
// ---- circular functions
CONTRACT(tangents) {
	const real x = REAL("x");
	const real s = thv_sin(x), c = thv_cos(x);
	ENSURES_EQ("sin", sin(x), s);
	ENSURES_EQ("cos", cos(x), c);
	REQUIRES(c > 1E-10 || c < -1E-10);
	ENSURES_EQ("tan", tan(x) * c, s);
	REQUIRES(s > 1E-10 || s < -1E-10);
	ENSURES_EQ("cot", cot(x) * s, c);
	NO_ERROR();
}
CONTRACT(tangent_pole) {
	const int k = (int) PICK("k", -6, 6);
	const real t = tan(PI2 + k * PI);
	ANY_ERROR_NAN(t);
	errno = 0;
	const real c = cot(k * PI);
	ANY_ERROR_NAN(c);
}
CONTRACT(atan_body) {
	INLINE("_ZN10theoretica4atanEd");
	const real x = REAL("x");
	REQUIRES(x >= -1 && x <= 1);
	ENSURES_NEAR("arctangent", atan(x), thv_atan(x), 1.2E-8);
}
CONTRACT(atan_outside) {
	// every x over 1 is 1 / u for a u in (0, 1), where atan(x) = PI/2 - atan(u)
	INLINE("_ZN10theoretica4atanEd");
	const real u = REAL("u");
	REQUIRES(u > 0 && u < 1);
	ENSURES_NEAR("arctangent over 1", atan(1 / u), PI2 - thv_atan(u), 1.2E-8);
	ENSURES_NEAR("arctangent under -1", atan(-1 / u), thv_atan(u) - PI2, 1.2E-8);
}
CONTRACT(arcsine) {
	const real x = REAL("x");
	const real a = asin(x);
	if (x > 1 || x < -1) { ANY_ERROR_NAN(a); return; }
	NO_ERROR();
	if (x == 1 || x == -1) { ENSURES_NEAR("+-PI/2", a, x * PI2, 1E-9); return; }
	ENSURES_EQ("sin(asin(x)) = x", sin(a), x);
	ENSURES("principal value", cos(a) >= 0);
}
CONTRACT(arccosine) {
	const real x = REAL("x");
	const real a = acos(x);
	if (x > 1 || x < -1) { ANY_ERROR_NAN(a); return; }
	NO_ERROR();
	ENSURES_EQ("cos(acos(x)) = x", cos(a), x);
	ENSURES_EQ("sin(acos(x)) = sqrt(1 - x^2)", sin(a), thv_sqrt(1 - x * x));
}
CONTRACT(arccosine_range) {
	INLINE("_ZN10theoretica4atanEd");
	ENSURES_NEAR("acos(0)", acos(0), PI2, 1E-7);
	ENSURES_NEAR("acos(1)", acos(1), 0, 1E-7);
	ENSURES_NEAR("acos(-1)", acos(-1), PI, 1E-7);
	ENSURES_NEAR("acos(1/2)", acos(0.5), PI / 3, 1E-7);
	ENSURES_NEAR("acos(-1/2)", acos(-0.5), 2 * PI / 3, 1E-7);
	ENSURES_NEAR("asin(1/2)", asin(0.5), PI / 6, 1E-7);
	ENSURES_NEAR("asin(-1/2)", asin(-0.5), -PI / 6, 1E-7);
}
CONTRACT(arctangent2) {
	const real y = REAL("y"), x = REAL("x");
	const real a = atan2(y, x);
	if (x == 0 && y == 0) { ANY_ERROR_NAN(a); return; }
	const real h = thv_sqrt(x * x + y * y);
	ENSURES_EQ("h cos(a) = x", h * cos(a), x);
	ENSURES_EQ("h sin(a) = y", h * sin(a), y);
	NO_ERROR();
}
CONTRACT(arctangent2_range) {
	INLINE("_ZN10theoretica4atanEd");
	const int i = (int) PICK("i", -1, 1), j = (int) PICK("j", -1, 1);
	if (i == 0 && j == 0) return;
	const real a = atan2(i, j);
	real e = i == 0 ? 0 : (j == 0 ? PI2 : PI / 4);
	if (j < 0) e = PI - e;
	if (i < 0) e = -e;
	ENSURES_NEAR("angle in (-PI, PI]", a, e, 1E-7);
}
// ---- hyperbolic functions
CONTRACT(hyperbolic) {
	const real x = REAL("x");
	const real e = thv_exp(x), s = (e - 1 / e) / 2, c = (e + 1 / e) / 2;
	ENSURES_EQ("sinh", sinh(x), s);
	ENSURES_EQ("cosh", cosh(x), c);
	ENSURES_EQ("tanh", tanh(x) * c, s);
	NO_ERROR();
	if (x == 0) { ANY_ERROR_NAN(coth(x)); return; }
	ENSURES_EQ("coth", coth(x) * s, c);
}
CONTRACT(hyperbolic_inverse) {
	const real x = REAL("x");
	const real s = thv_exp(asinh(x));
	ENSURES_EQ("sinh(asinh(x)) = x", (s - 1 / s) / 2, x);
	NO_ERROR();
	const real a = acosh(x);
	if (x < 1) { ANY_ERROR_NAN(a); return; }
	const real c = thv_exp(a);
	ENSURES_EQ("cosh(acosh(x)) = x", (c + 1 / c) / 2, x);
	ENSURES("acosh is not negative", c >= 1);
	NO_ERROR();
}
CONTRACT(hyperbolic_arctangent) {
	const real x = REAL("x");
	const real a = atanh(x);
	if (x <= -1 || x >= 1) { ANY_ERROR_NAN(a); return; }
	const real e = thv_exp(2 * a);
	ENSURES_EQ("tanh(atanh(x)) = x", (e - 1) / (e + 1), x);
	NO_ERROR();
}
CONTRACT(saturation_ieee) {
	IEEE();
	const real x = (real) PICK("x", 300, 310) * 100;
	ENSURES("tanh(inf)", tanh(x) == 1 && tanh(-x) == -1);
	ENSURES("coth(inf)", coth(x) == 1 && coth(-x) == -1);
	ENSURES("sigmoid", sigmoid(x) == 1 && sigmoid(-x) == 0);
}
// ---- others
CONTRACT(sigmoid_sinc) {
	const real x = REAL("x");
	ENSURES_EQ("sigmoid", sigmoid(x), 1 / (1 + thv_exp(-x)));
	if (x == 0) ENSURES_EQ("sinc(0)", sinc(x), 1.0);
	else if (x > 1E-10 || x < -1E-10) ENSURES_EQ("sinc", sinc(x) * (PI * x), thv_sin(PI * x));
	NO_ERROR();
}
CONTRACT(angles) {
	const real x = REAL("x");
	ENSURES_EQ("radians", radians(x) * 180, PI * x);
	ENSURES_EQ("degrees", degrees(x) * PI, 180 * x);
}
CONTRACT(constants) {
	ENSURES_NEAR("PI", PI, 4 * thv_atan(1), 1E-15);
	ENSURES_NEAR("E", E, thv_exp(1), 1E-15);
	ENSURES_NEAR("LN2", LN2, thv_ln(2), 1E-16);
	ENSURES_NEAR("LN10", LN10, thv_ln(10), 1E-15);
	ENSURES_NEAR("LOG2E", LOG2E, 1 / thv_ln(2), 1E-15);
	ENSURES_NEAR("LOG210", LOG210, thv_ln(10) / thv_ln(2), 1E-15);
	ENSURES_NEAR("LOG10E", LOG10E, 1 / thv_ln(10), 1E-16);
	ENSURES_NEAR("PHI", PHI, (1 + thv_sqrt(5)) / 2, 1E-15);
	ENSURES_NEAR("INVPHI", INVPHI, (thv_sqrt(5) - 1) / 2, 1E-15);
	ENSURES_NEAR("SQRT2", SQRT2, thv_sqrt(2), 1E-15);
	ENSURES_NEAR("SQRT3", SQRT3, thv_sqrt(3), 1E-15);
	ENSURES_NEAR("INVSQR2", INVSQR2, 1 / thv_sqrt(2), 1E-15);
	ENSURES_NEAR("SQRTPI", SQRTPI, thv_sqrt(PI), 1E-15);
	ENSURES_NEAR("PI2", PI2, PI / 2, 1E-15);
	ENSURES_NEAR("PI4", PI4, PI / 4, 1E-15);
	ENSURES_NEAR("TAU", TAU, 2 * PI, 1E-15);
	ENSURES_NEAR("PIDOUBLE", PIDOUBLE, 2 * PI, 1E-15);
	ENSURES_NEAR("INVPI", INVPI, 1 / PI, 1E-15);
	ENSURES_NEAR("DEG2RAD", DEG2RAD, PI / 180, 1E-16);
	ENSURES_NEAR("RAD2DEG", RAD2DEG, 180 / PI, 1E-13);
}
// ---- special functions
CONTRACT(gamma_of_integers) {
	const unsigned k = (unsigned) PICK("k", 1, 60);
	BOUNDED("Gamma function of integers up to 60");
	real f = 1;
	for (unsigned i = 1; i < k; i++) f *= i;
	ENSURES_EQ("(k - 1)!", special::gamma(k), f);
	ENSURES_EQ("(k - 1)! of a real argument", special::gamma((real) k), f);
	ENSURES_EQ("k!", special::pi((real) (k - 1)), f);
	ENSURES_EQ("half_gamma(2k)", special::half_gamma(2 * k), f);
	real h = SQRTPI;
	for (unsigned i = 1; i < k; i++) h *= i - 0.5;
	ENSURES_EQ("half_gamma(2k - 1)", special::half_gamma(2 * k - 1), h);
	NO_ERROR();
}
CONTRACT(gamma_poles) {
	const int k = (int) PICK("k", -30, 0);
	ENSURES("infinite", thv_isinf(special::gamma((real) k)));
	SOME_ERROR();
	errno = 0;
	ANY_ERROR_NAN(special::half_gamma(0));
	errno = 0;
	ANY_ERROR_NAN(special::gamma(0u));
}
CONTRACT(lngamma_recurrence) {
	const real x = REAL("x");
	BOUNDED("log-Gamma: arguments from 1/2 to 40");
	REQUIRES(x >= 0.5 && x <= 40);
	ENSURES_NEAR("lnGamma(x + 1) = lnGamma(x) + ln(x)", special::lngamma(x + 1) - special::lngamma(x), thv_ln(x), 2E-9);
	NO_ERROR();
}
CONTRACT(lngamma_values) {
	ENSURES_NEAR("lnGamma(1)", special::lngamma(1), 0, 2E-9);
	ENSURES_NEAR("lnGamma(2)", special::lngamma(2), 0, 2E-9);
	ENSURES_NEAR("lnGamma(1/2)", special::lngamma(0.5), thv_ln(PI) / 2, 2E-9);
	ENSURES_NEAR("lnGamma(10)", special::lngamma(10), thv_ln(362880), 2E-9);
}
CONTRACT(lngamma_reflection) {
	BOUNDED("log-Gamma: arguments from -6 to 0");
	const int k = (int) PICK("k", 0, 5);
	const real f = REAL("f");
	REQUIRES(f > 1E-6 && f < 1 - 1E-6);
	const real x = -k - f;
	const real l = special::lngamma(x);
	if (k % 2 == 0) { ANY_ERROR_NAN(l); return; }
	ENSURES_EQ("Euler's reflection", l + special::lngamma(1 - x), thv_ln(PI / thv_sin(PI * x)));
	NO_ERROR();
}
CONTRACT(gamma_of_reals) {
	BOUNDED("Gamma function: arguments from -6 to 12");
	const int k = (int) PICK("k", -6, 11);
	const real f = REAL("f");
	REQUIRES(f > 1E-6 && f < 1 - 1E-6);
	const real x = k + f;
	const real g = special::gamma(x);
	NO_ERROR();
	if (k >= 0) ENSURES_EQ("exp(lnGamma(x))", g, thv_exp(special::lngamma(x)));
	else if (k % 2 == 0) ENSURES_EQ("positive values", g, thv_exp(special::lngamma(x)));
	else ENSURES_EQ("negative values by translation", g * x, thv_exp(special::lngamma(x + 1)));
	ENSURES_EQ("Pi function", special::pi(x - 1), g);
}
CONTRACT(beta_function) {
	ABSTRACT1("lngamma");
	const real x = REAL("x"), y = REAL("y");
	REQUIRES(x > 0 && y > 0);
	ENSURES_EQ("Gamma(x) Gamma(y) / Gamma(x + y)", special::beta(x, y), thv_exp(special::lngamma(x)) * thv_exp(special::lngamma(y)) / thv_exp(special::lngamma(x + y)));
	ENSURES_EQ("symmetric", special::beta(x, y), special::beta(y, x));
}
