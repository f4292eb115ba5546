#include "thvlib.h"
typedef phasor<real> Ph;
static bool clear(real x) { return x == 0 || x > 1E-10 || x < -1E-10; }
static Ph sym(const char* n) { real m = REAL(n), t = REAL(n); return Ph(m, t); }
static real re(const Ph& p) { return p.modulus * thv_cos(p.phase); }
static real im(const Ph& p) { return p.modulus * thv_sin(p.phase); }
static void same(const char* l, const Ph& p, real a, real b) { ENSURES_EQ(l, re(p), a); ENSURES_EQ(l, im(p), b); }

CONTRACT(phasor_parts) {
	Ph p = sym("p");
	ENSURES_EQ("Re", p.Re(), re(p)); ENSURES_EQ("Im", p.Im(), im(p)); ENSURES_EQ("Re", Re(p), re(p)); ENSURES_EQ("Im", Im(p), im(p));
	ENSURES_EQ("norm", p.norm(), p.modulus); ENSURES_EQ("sqr_norm", p.sqr_norm(), p.modulus * p.modulus);
	ENSURES_EQ("arg", p.arg(), p.phase);
	same("conjugate", p.conjugate(), re(p), -im(p));
	complex<real> z = p.to_complex();
	ENSURES_EQ("to_complex", z.Re(), re(p)); ENSURES_EQ("to_complex", z.Im(), im(p));
	real t = REAL("t");
	same("rotor", Ph::rotor(t), thv_cos(t), thv_sin(t));
	same("i", Ph::i(), 0, 1);
	same("from a real", Ph(t), t, 0);
	same("default", Ph(), 0, 0);
	NO_ERROR();
}
CONTRACT(phasor_product) {
	const Ph p = sym("p"), q = sym("q"); real k = REAL("k");
	const real a = re(p), b = im(p), c = re(q), d = im(q);
	same("p * q", p * q, a * c - b * d, a * d + b * c);
	Ph t = p; t *= q; same("*=", t, a * c - b * d, a * d + b * c);
	same("k * p", k * p, k * a, k * b);
	NO_ERROR();
}
CONTRACT(phasor_quotient) {
	const Ph p = sym("p"), q = sym("q");
	REQUIRES(q.modulus > 1E-12);
	const Ph r = p / q;
	const real a = re(r), b = im(r), c = re(q), d = im(q);
	ENSURES_EQ("(p / q) q = p", a * c - b * d, re(p)); ENSURES_EQ("(p / q) q = p", a * d + b * c, im(p));
	Ph t = p; t /= q; same("/=", t, a, b);
	const Ph i = q.inverse();
	ENSURES_EQ("q^-1 q = 1", re(i) * c - im(i) * d, 1); ENSURES_EQ("q^-1 q = 1", re(i) * d + im(i) * c, 0);
	t = q; t.invert(); same("invert", t, re(i), im(i));
	NO_ERROR();
}
CONTRACT(phasor_division_by_zero) {
	Ph p = sym("p"), zero(0, REAL("t")), r;
	switch (PICK("op", 0, 3)) {
		case 0: r = p / zero; break;
		case 1: r = zero.inverse(); break;
		case 2: r = p; r /= zero; break;
		default: r = zero; r.invert();
	}
	ENSURES_NAN("modulus", r.modulus); ENSURES_NAN("phase", r.phase);
	SOME_ERROR();
}
CONTRACT(phasor_sum_same_phase) {
	const real t = REAL("t"), m = REAL("m"), n = REAL("n");
	const Ph p(m, t), q(n, t);
	same("p + q", p + q, re(p) + re(q), im(p) + im(q));
	same("p - q", p - q, re(p) - re(q), im(p) - im(q));
	Ph r = p; r += q; same("+=", r, re(p) + re(q), im(p) + im(q));
	r = p; r -= q; same("-=", r, re(p) - re(q), im(p) - im(q));
	NO_ERROR();
}
CONTRACT(phasor_sum) {
	const Ph p = sym("p"), q = sym("q");
	REQUIRES(p.phase - q.phase > 1E-10 || q.phase - p.phase > 1E-10);
	const real sg = PICK("sign", 0, 1) ? 1 : -1;
	const real x = re(p) + sg * re(q), y = im(p) + sg * im(q);
	REQUIRES(clear(x) && clear(y));
	Ph r;
	if (PICK("inplace", 0, 1)) { r = p; if (sg > 0) r += q; else r -= q; }
	else r = sg > 0 ? p + q : p - q;
	same("sum or difference", r, x, y);
	NO_ERROR();
}
CONTRACT(phasor_from_complex) {
	const real x = REAL("x"), y = REAL("y");
	REQUIRES(clear(x) && clear(y));
	complex<real> z(x, y);
	same("from complex", Ph(z), x, y);
	ENSURES("modulus is not negative", Ph(z).modulus >= 0);
	NO_ERROR();
}
CONTRACT(phasor_times_complex) {
	const Ph p = sym("p"); const real x = REAL("x"), y = REAL("y");
	REQUIRES(clear(x) && clear(y));
	const complex<real> z(x, y);
	const real a = re(p), b = im(p);
	if (PICK("side", 0, 1)) same("p * z", p * z, a * x - b * y, a * y + b * x);
	else same("z * p", z * p, a * x - b * y, a * y + b * x);
	NO_ERROR();
}
CONTRACT(real_op_phasor) {
	const Ph p = sym("p"); const real k = REAL("k"), a = re(p), b = im(p);
	REQUIRES(p.modulus > 1E-12);
	same("k * p", k * p, k * a, k * b);
	same("p * k", p * Ph(k), k * a, k * b);
	const Ph q = k / p;
	ENSURES_EQ("(k / p) p = k", re(q) * a - im(q) * b, k); ENSURES_EQ("(k / p) p = k", re(q) * b + im(q) * a, 0);
	NO_ERROR();
}
CONTRACT(real_plus_minus_phasor) {
	const Ph p = sym("p"); const real k = REAL("k"), a = re(p), b = im(p);
	REQUIRES(p.phase > 1E-10 && p.phase < 3 && clear(k + a) && clear(k - a) && clear(b));
	same("k + p", k + p, k + a, b);
	same("k - p", k - p, k - a, -b);
	NO_ERROR();
}
CONTRACT(real_over_zero_phasor) {
	const Ph r = REAL("k") / Ph(0, REAL("t"));
	ENSURES_NAN("modulus", r.modulus); ENSURES_NAN("phase", r.phase);
	SOME_ERROR();
}
