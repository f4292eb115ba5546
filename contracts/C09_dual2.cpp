// Second-order dual numbers: x + b e1 + c e2 carries value, first and second derivative of a composition.
#include "thvlib.h"

#define SYM2 real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d"), e = REAL("e"), f = REAL("f"); const dual2 x(a, b, c), y(d, e, f);
#define IS(label, v, re, d1, d2) { dual2 v_ = (v); ENSURES_EQ(label ": value", v_.Re(), (re)); ENSURES_EQ(label ": first order", v_.Dual1(), (d1)); ENSURES_EQ(label ": second order", v_.Dual2(), (d2)); }

CONTRACT(dual2_ring) {
	SYM2
	IS("x + y", x + y, a + d, b + e, c + f);
	IS("x - y", x - y, a - d, b - e, c - f);
	IS("x * y", x * y, a * d, a * e + b * d, a * f + 2 * b * e + c * d);
	IS("+x", +x, a, b, c);
	IS("-x", -x, -a, -b, -c);
	IS("x + r", x + d, a + d, b, c);
	IS("r + x", d + x, a + d, b, c);
	IS("x - r", x - d, a - d, b, c);
	IS("r - x", d - x, d - a, -b, -c);
	IS("x * r", x * d, a * d, b * d, c * d);
	IS("r * x", d * x, a * d, b * d, c * d);
	IS("conjugate", x.conjugate(), a, -b, -c);
	IS("conjugate()", conjugate(x), a, -b, -c);
	IS("square", square(x), a * a, 2 * a * b, 2 * b * b + 2 * a * c);
	IS("cube", cube(x), a * a * a, 3 * a * a * b, 6 * a * b * b + 3 * a * a * c);
}
CONTRACT(dual2_division) {
	SYM2
	REQUIRES(d != 0);
	errno = 0;
	IS("inverse", y.inverse(), 1 / d, -e / (d * d), 2 * e * e / (d * d * d) - f / (d * d));
	dual2 q = x / y;
	IS("(x / y) * y", q * y, a, b, c);
	IS("x / r", x / d, a / d, b / d, c / d);
	dual2 s = a / y;
	IS("(r / y) * y", s * y, a, 0.0, 0.0);
	dual2 r = x; r /= y; IS("x /= y", r, q.Re(), q.Dual1(), q.Dual2());
	r = x; r /= d; IS("x /= r", r, a / d, b / d, c / d);
	r = y; r /= r; IS("y /= y", r, 1.0, 0.0, 0.0);
	NO_ERROR();
}
CONTRACT(dual2_inplace) {
	SYM2
	dual2 r = x; dual2* p = &(r += y); ENSURES("returns itself", p == &r); IS("x += y", r, a + d, b + e, c + f);
	r = x; p = &(r -= y); ENSURES("returns itself", p == &r); IS("x -= y", r, a - d, b - e, c - f);
	r = x; p = &(r *= y); ENSURES("returns itself", p == &r); IS("x *= y", r, a * d, a * e + b * d, a * f + 2 * b * e + c * d);
	r = x; r += d; IS("x += r", r, a + d, b, c);
	r = x; r -= d; IS("x -= r", r, a - d, b, c);
	r = x; r *= d; IS("x *= r", r, a * d, b * d, c * d);
	r = x; r = d; IS("x = r", r, d, 0.0, 0.0);
	IS("operands unchanged", y, d, e, f);
	r = x; r *= r; IS("x *= x", r, a * a, 2 * a * b, 2 * b * b + 2 * a * c);
}
CONTRACT(dual2_errors) {
	real a = REAL("a"), b = REAL("b"), d = REAL("d"), e = REAL("e");
	errno = 0;
	dual2 r = dual2(0, d, e).inverse();
	ENSURES("inverse of a zero real part is an error", errno != 0);
	ENSURES_NAN("inverse gives NaN", r.Re()); ENSURES_NAN("inverse gives NaN", r.Dual1()); ENSURES_NAN("inverse gives NaN", r.Dual2());
	errno = 0;
	r = dual2(a, b, d); r /= 0.0;
	ENSURES("division by zero is an error", errno != 0);
	ENSURES_NAN("division by zero gives NaN", r.Re()); ENSURES_NAN("division by zero gives NaN", r.Dual1()); ENSURES_NAN("division by zero gives NaN", r.Dual2());
	errno = 0;
	r = dual2(a, b, d) / 0.0;
	ENSURES("division by zero is an error", errno != 0);
	ENSURES_NAN("division by zero gives NaN", r.Re()); ENSURES_NAN("division by zero gives NaN", r.Dual1()); ENSURES_NAN("division by zero gives NaN", r.Dual2());
	errno = 0;
	r = dual2(a, b, d) / dual2(0, d, e);
	ENSURES("division by a non invertible element is an error", errno != 0);
	ENSURES_NAN("and gives NaN", r.Re()); ENSURES_NAN("and gives NaN", r.Dual1()); ENSURES_NAN("and gives NaN", r.Dual2());
}
CONTRACT(dual2_access) {
	real a = REAL("a"), b = REAL("b"), c = REAL("c");
	dual2 x(a, b, c);
	vec3 v = x.to_vec(); ENSURES_EQ("to_vec", v[0], a); ENSURES_EQ("to_vec", v[1], b); ENSURES_EQ("to_vec", v[2], c);
	dual2 y; IS("default is zero", y, 0.0, 0.0, 0.0);
	y.from_vec(v); IS("from_vec inverts to_vec", y, a, b, c);
	dual2 z(v); IS("dual2(vec3)", z, a, b, c);
	dual2 w(7, 8, 9); dual2* p = &(w = v); ENSURES("returns itself", p == &w); IS("= vec3", w, a, b, c);
	p = &(w = b); ENSURES("returns itself", p == &w); IS("= real", w, b, 0.0, 0.0);
	ENSURES("x == x", y == x);
	ENSURES("== compares every part", !(dual2(a, b, c) == dual2(a + 1, b, c)) && !(dual2(a, b, c) == dual2(a, b + 1, c)) && !(dual2(a, b, c) == dual2(a, b, c + 1)));
	IS("dual2(r)", dual2(a), a, 0.0, 0.0);
	IS("dual2(r, s)", dual2(a, b), a, b, 0.0);
}
#define FUN(name, f, pre, d1, d2) CONTRACT(dual2_##name) { \
	real x = REAL("x"), b = REAL("b"), c = REAL("c"); REQUIRES(pre); \
	errno = 0; dual2 r = f(dual2(x, b, c)); NO_ERROR(); \
	ENSURES_EQ(#name ": value", r.Re(), f(x)); \
	ENSURES_EQ(#name ": first derivative", r.Dual1(), b * (d1)); \
	ENSURES_EQ(#name ": second derivative", r.Dual2(), b * b * (d2) + c * (d1)); }
#define EX thv_exp(x)
#define S thv_sin(x)
#define K thv_cos(x)
#define Q thv_sqrt(1 - x * x)
FUN(sin, sin, true, K, -S)
FUN(cos, cos, true, -S, -K)
FUN(tan, tan, K > 1E-15 || K < -1E-15, 1 / (K * K), 2 * S / (K * K * K))
FUN(cot, cot, S > 1E-15 || S < -1E-15, -1 / (S * S), 2 * K / (S * S * S))
FUN(exp, exp, true, EX, EX)
FUN(ln, ln, x > 0, 1 / x, -1 / (x * x))
FUN(log2, log2, x > 0, (real) LOG2E / x, -(real) LOG2E / (x * x))
FUN(log10, log10, x > 0, (real) LOG10E / x, -(real) LOG10E / (x * x))
FUN(sqrt, sqrt, x > 0, 0.5 / thv_sqrt(x), -0.25 / (x * thv_sqrt(x)))
FUN(abs, abs, x != 0, (x > 0 ? 1.0 : -1.0), 0.0)
FUN(asin, asin, x > -1 && x < 1, 1 / Q, x / (Q * Q * Q))
FUN(acos, acos, x > -1 && x < 1, -1 / Q, -x / (Q * Q * Q))
FUN(atan, atan, true, 1 / (1 + x * x), -2 * x / ((1 + x * x) * (1 + x * x)))

CONTRACT(dual2_pow) {
	BOUNDED(EXPONENTS);
	const int n = ANY_EXPONENT();
	real x = REAL("x"), b = REAL("b"), c = REAL("c"); REQUIRES(x != 0);
	errno = 0;
	dual2 r = pow(dual2(x, b, c), n);
	real p = 1; for (int i = 0; i < (n < 0 ? -n : n); i++) p *= x;
	if (n < 0) p = 1 / p;
	ENSURES_EQ("pow: value", r.Re(), p);
	ENSURES_EQ("pow: first derivative", r.Dual1(), n * p / x * b);
	ENSURES_EQ("pow: second derivative", r.Dual2(), n * (n - 1) * p / (x * x) * b * b + n * p / x * c);
	NO_ERROR();
}
CONTRACT(dual2_pow_at_zero) {
	real b = REAL("b"), c = REAL("c");
	errno = 0;
	IS("0^0", pow(dual2(0, b, c), 0), 1.0, 0.0, 0.0);
	IS("0^1", pow(dual2(0, b, c), 1), 0.0, b, c);
	IS("0^2", pow(dual2(0, b, c), 2), 0.0, 0.0, 2 * b * b);
	IS("0^3", pow(dual2(0, b, c), 3), 0.0, 0.0, 0.0);
	NO_ERROR();
}
#define BADDOM(name, f, pre) CONTRACT(dual2_##name##_domain) { \
	real x = REAL("x"), b = REAL("b"), c = REAL("c"); REQUIRES(pre); \
	errno = 0; dual2 r = f(dual2(x, b, c)); SOME_ERROR(); \
	ENSURES_NAN(#name ": NaN outside the domain", r.Re()); ENSURES_NAN(#name ": NaN outside the domain", r.Dual1()); ENSURES_NAN(#name ": NaN outside the domain", r.Dual2()); }
BADDOM(ln, ln, x <= 0)
BADDOM(log2, log2, x <= 0)
BADDOM(log10, log10, x <= 0)
BADDOM(sqrt, sqrt, x <= 0)
BADDOM(asin, asin, x >= 1 || x <= -1)
BADDOM(acos, acos, x >= 1 || x <= -1)
BADDOM(tan, tan, thv_cos(x) == 0)
BADDOM(cot, cot, thv_sin(x) == 0)
// deriv2: the second derivative of an arbitrary twice differentiable function
static dual2 generic(dual2 x) {
	real t = x.Re();
	return dual2(thv_fn1("f", t), thv_fn1("df", t) * x.Dual1(), thv_fn1("d2f", t) * x.Dual1() * x.Dual1() + thv_fn1("df", t) * x.Dual2());
}
CONTRACT(deriv2_of_any_function) {
	real x = REAL("x");
	ENSURES_EQ("deriv2(f, x)", autodiff::deriv2([](dual2 t) -> dual2 { return generic(t); }, x), thv_fn1("d2f", x));
	auto g = autodiff::deriv2([](dual2 t) -> dual2 { return generic(t); });
	ENSURES_EQ("deriv2(f)(x)", g(x), thv_fn1("d2f", x));
}
CONTRACT(deriv2_of_compositions) {
	real x = REAL("x");
	// (f o f)'' = f''(f) f'^2 + f'(f) f''
	real u = thv_fn1("f", x);
	real d2 = thv_fn1("d2f", u) * thv_fn1("df", x) * thv_fn1("df", x) + thv_fn1("df", u) * thv_fn1("d2f", x);
	ENSURES_EQ("(f o f)''", autodiff::deriv2([](dual2 t) -> dual2 { return generic(generic(t)); }, x), d2);
	// (x f)'' = 2 f' + x f'',  (1/x)'' = 2/x^3,  (sin x^2)'' = 2 cos x^2 - 4 x^2 sin x^2
	ENSURES_EQ("(x f)''", autodiff::deriv2([](dual2 t) -> dual2 { return t * generic(t); }, x), 2 * thv_fn1("df", x) + x * thv_fn1("d2f", x));
	REQUIRES(x != 0);
	ENSURES_EQ("(1/x)''", autodiff::deriv2([](dual2 t) -> dual2 { return 1.0 / t; }, x), 2 / (x * x * x));
	ENSURES_EQ("(sin x^2)''", autodiff::deriv2([](dual2 t) -> dual2 { return sin(t * t); }, x), 2 * thv_cos(x * x) - 4 * x * x * thv_sin(x * x));
}
// laplacian of an arbitrary function of N variables: f, gradient g_i, Hessian h_ij are uninterpreted
static dual2 field3(vec<dual2, 3> v) {
	real p = v[0].Re(), q = v[1].Re(), r = v[2].Re();
	const char* G[3] = {"g0", "g1", "g2"}; const char* H[3][3] = {{"h00", "h01", "h02"}, {"h01", "h11", "h12"}, {"h02", "h12", "h22"}};
	real d1 = 0, d2 = 0;
	for (int i = 0; i < 3; i++) {
		d1 += thv_fn3(G[i], p, q, r) * v[i].Dual1();
		d2 += thv_fn3(G[i], p, q, r) * v[i].Dual2();
		for (int j = 0; j < 3; j++) d2 += thv_fn3(H[i][j], p, q, r) * v[i].Dual1() * v[j].Dual1();
	}
	return dual2(thv_fn3("f", p, q, r), d1, d2);
}
CONTRACT(laplacian_of_any_field) {
	vec<real, 3> x = sym_vec<3>("x");
	real s = thv_fn3("h00", x[0], x[1], x[2]) + thv_fn3("h11", x[0], x[1], x[2]) + thv_fn3("h22", x[0], x[1], x[2]);
	ENSURES_EQ("laplacian is the trace of the Hessian", autodiff::laplacian<3>(field3, x), s);
	auto L = autodiff::laplacian<3>(field3);
	ENSURES_EQ("laplacian(f)(x)", L(x), s);
}
