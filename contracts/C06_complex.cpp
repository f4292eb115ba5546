#include "thvlib.h"
typedef complex<real> C;
static C sym(const char* n) { real a = REAL(n), b = REAL(n); return C(a, b); }
// Components of a value outside the tolerance band in which the library treats it as zero
static bool clear(real x) { return x == 0 || x > 1E-10 || x < -1E-10; }
static void same(const char* l, const C& z, real re, real im) { ENSURES_EQ(l, z.Re(), re); ENSURES_EQ(l, z.Im(), im); }

CONTRACT(complex_ring) {
	C z = sym("z"), w = sym("w"); real k = REAL("k");
	const real a = z.Re(), b = z.Im(), c = w.Re(), d = w.Im();
	same("z + w", z + w, a + c, b + d);
	same("z - w", z - w, a - c, b - d);
	same("z * w", z * w, a * c - b * d, a * d + b * c);
	same("-z", -z, -a, -b);
	same("+z", +z, a, b);
	same("z + k", z + k, a + k, b);
	same("z - k", z - k, a - k, b);
	same("z * k", z * k, a * k, b * k);
	same("k + z", k + z, a + k, b);
	same("k - z", k - z, k - a, -b);
	same("k * z", k * z, a * k, b * k);
	same("conjugate", z.conjugate(), a, -b);
	same("conjugate(z)", conjugate(z), a, -b);
	same("identity", identity(z), a, b);
	ENSURES_EQ("sqr_norm", z.sqr_norm(), a * a + b * b);
	ENSURES_EQ("norm", z.norm(), thv_sqrt(a * a + b * b));
	ENSURES_EQ("abs", abs(z), thv_sqrt(a * a + b * b));
	ENSURES_EQ("Re", Re(z), a); ENSURES_EQ("Im", Im(z), b);
	same("square", square(z), a * a - b * b, 2 * a * b);
	same("cube", cube(z), a * a * a - 3 * a * b * b, 3 * a * a * b - b * b * b);
	same("i", C::i(), 0, 1);
	same("operands unchanged", z, a, b); same("operands unchanged", w, c, d);
	NO_ERROR();
}
CONTRACT(complex_inplace) {
	C z = sym("z"), w = sym("w"); real k = REAL("k");
	const real a = z.Re(), b = z.Im(), c = w.Re(), d = w.Im();
	C t = z; t += w; same("+= w", t, a + c, b + d);
	t = z; t -= w; same("-= w", t, a - c, b - d);
	t = z; t *= w; same("*= w", t, a * c - b * d, a * d + b * c);
	t = z; t *= t; same("*= itself", t, a * a - b * b, 2 * a * b);
	t = z; t += k; same("+= k", t, a + k, b);
	t = z; t -= k; same("-= k", t, a - k, b);
	t = z; t *= k; same("*= k", t, a * k, b * k);
	same("operands unchanged", w, c, d);
	std::array<real, 2> arr = {c, d};
	t = arr; same("from array", t, c, d);
	NO_ERROR();
}
CONTRACT(complex_division) {
	C z = sym("z"), w = sym("w"); real k = REAL("k");
	REQUIRES(w.Re() * w.Re() + w.Im() * w.Im() > 1E-12);
	REQUIRES(k > 1E-12 || k < -1E-12);
	const real a = z.Re(), b = z.Im(), c = w.Re(), d = w.Im(), n = c * c + d * d;
	same("z / w", z / w, (a * c + b * d) / n, (b * c - a * d) / n);
	same("k / w", k / w, k * c / n, -k * d / n);
	same("z / k", z / k, a / k, b / k);
	same("inverse", w.inverse(), c / n, -d / n);
	same("inverse(w)", inverse(w), c / n, -d / n);
	C t = z; t /= w; same("/= w", t, (a * c + b * d) / n, (b * c - a * d) / n);
	t = z; t /= k; same("/= k", t, a / k, b / k);
	t = w; t /= t; same("/= itself", t, 1, 0);
	t = w; t.invert(); same("invert", t, c / n, -d / n);
	same("divisor unchanged", w, c, d);
	NO_ERROR();
}
CONTRACT(complex_division_by_zero) {
	C z = sym("z"), zero(0, 0);
	C r;
	switch (PICK("op", 0, 6)) {
		case 0: r = z / zero; break;
		case 1: r = z / 0.0; break;
		case 2: r = zero.inverse(); break;
		case 3: r = z; r /= zero; break;
		case 4: r = z; r /= 0.0; break;
		case 5: r = zero; r.invert(); break;
		default: r = inverse(zero);
	}
	ENSURES_NAN("real part", r.Re()); ENSURES_NAN("imaginary part", r.Im());
	SOME_ERROR();
}
CONTRACT(complex_equality) {
	C z = sym("z"), w = sym("w");
	const bool e = z.Re() == w.Re() && z.Im() == w.Im();
	ENSURES("==", (z == w) == e);
	ENSURES("!=", (z != w) == !e);
}
CONTRACT(complex_norm_multiplicative) {
	C z = sym("z"), w = sym("w");
	ENSURES_EQ("|zw|^2", (z * w).sqr_norm(), z.sqr_norm() * w.sqr_norm());
	ENSURES_EQ("z conj z", (z * z.conjugate()).Re(), z.sqr_norm());
	ENSURES_EQ("z conj z", (z * z.conjugate()).Im(), 0);
}
CONTRACT(complex_exp) {
	C z = sym("z"), w = sym("w");
	same("exp", exp(z), thv_exp(z.Re()) * thv_cos(z.Im()), thv_exp(z.Re()) * thv_sin(z.Im()));
	C p = exp(z) * exp(w), q = exp(z + w);
	same("exp(z + w) = exp(z) exp(w)", q, p.Re(), p.Im());
	real t = REAL("t");
	same("rotor", C::rotor(t), thv_cos(t), thv_sin(t));
	NO_ERROR();
}
CONTRACT(complex_trigonometry) {
	C z = sym("z");
	const real x = z.Re(), y = z.Im();
	const real ch = (thv_exp(y) + 1 / thv_exp(y)) / 2, sh = (thv_exp(y) - 1 / thv_exp(y)) / 2;
	same("sin", sin(z), thv_sin(x) * ch, thv_cos(x) * sh);
	same("cos", cos(z), thv_cos(x) * ch, -thv_sin(x) * sh);
	NO_ERROR();
}
CONTRACT(complex_tan) {
	C z = sym("z");
	const C s = sin(z), c = cos(z);
	const C e = exp(z * C(0, 2)) + 1.0;
	REQUIRES(e.sqr_norm() > 1E-10);
	const C t = tan(z), r = t * c;
	same("tan(z) cos(z) = sin(z)", r, s.Re(), s.Im());
	NO_ERROR();
}
CONTRACT(complex_sqrt) {
	C z = sym("z");
	REQUIRES(clear(z.Re()) && clear(z.Im()));
	const C s = sqrt(z);
	const C q = s * s;
	same("sqrt(z)^2 = z", q, z.Re(), z.Im());
	ENSURES("principal branch", s.Re() >= 0);
	ENSURES("principal branch of negative reals", s.Re() > 0 || s.Im() >= 0);
	NO_ERROR();
}
// arg and polar form: |z| e^(i arg z) = z, with the principal value of the argument
CONTRACT(complex_arg) {
	C z = sym("z");
	REQUIRES(clear(z.Re()) && clear(z.Im()));
	REQUIRES(z.Re() != 0 || z.Im() != 0);
	const real t = z.arg();
	ENSURES_EQ("|z| cos arg z = Re z", z.norm() * thv_cos(t), z.Re());
	ENSURES_EQ("|z| sin arg z = Im z", z.norm() * thv_sin(t), z.Im());
	NO_ERROR();
}
CONTRACT(complex_ln) {
	C z = sym("z");
	REQUIRES(clear(z.Re()) && clear(z.Im()));
	REQUIRES(z.Re() != 0 || z.Im() != 0);
	const C l = ln(z);
	const C e = exp(l);
	same("exp(ln z) = z", e, z.Re(), z.Im());
	NO_ERROR();
}
CONTRACT(complex_to_real) {
	C z = sym("z");
	real r = z;
	if (z.Im() == 0) ENSURES_EQ("real part", r, z.Re());
	if (z.Im() > 1E-10 || z.Im() < -1E-10) ENSURES_NAN("not a real number", r);
}
#define ABSTRACT_SQRT_LN() ABSTRACT2("_ZN10theoretica4sqrtIdEENS_7complexIT_EES3_"); ABSTRACT2("_ZN10theoretica2lnIdEENS_7complexIT_EES3_")
CONTRACT(complex_asin) {
	ABSTRACT_SQRT_LN();
	C z = sym("z");
	const C u = ln(C(0, 1) * z + sqrt(C(1, 0) - square(z))) * C(0, -1), r = asin(z);
	same("asin(z) = -i ln(iz + sqrt(1 - z^2))", r, u.Re(), u.Im());
}
CONTRACT(complex_acos) {
	ABSTRACT_SQRT_LN();
	C z = sym("z");
	const C u = ln(z + sqrt(square(z) - C(1, 0))) * C(0, -1), r = acos(z);
	same("acos(z) = -i ln(z + sqrt(z^2 - 1))", r, u.Re(), u.Im());
}
CONTRACT(complex_atan) {
	C z = sym("z");
	const C p = C(0, 1) - z, q = C(0, 1) + z;
	REQUIRES(q.sqr_norm() > 1E-10);
	const C u = ln(p / q) * C(0, -0.5), r = atan(z);
	same("atan(z) = -i/2 ln((i - z) / (i + z))", r, u.Re(), u.Im());
}
