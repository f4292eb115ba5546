// Dual numbers: arithmetic is that of R[e]/(e^2), and every elementary function carries value and exact derivative.
#include "thvlib.h"

#define SYM2 real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d"); const dual x(a, b), y(c, d);
#define IS(label, v, re, du) { dual v_ = (v); ENSURES_EQ(label ": real part", v_.Re(), (re)); ENSURES_EQ(label ": dual part", v_.Dual(), (du)); }

CONTRACT(dual_ring) {
	SYM2
	IS("x + y", x + y, a + c, b + d);
	IS("x - y", x - y, a - c, b - d);
	IS("x * y", x * y, a * c, a * d + b * c);
	IS("+x", +x, a, b);
	IS("-x", -x, -a, -b);
	IS("x + r", x + c, a + c, b);
	IS("r + x", c + x, a + c, b);
	IS("x - r", x - c, a - c, b);
	IS("r - x", c - x, c - a, -b);
	IS("x * r", x * c, a * c, b * c);
	IS("r * x", c * x, a * c, b * c);
	IS("conjugate", x.conjugate(), a, -b);
	IS("conjugate()", conjugate(x), a, -b);
	IS("square", square(x), a * a, 2 * a * b);
	IS("cube", cube(x), a * a * a, 3 * a * a * b);
}
CONTRACT(dual_division) {
	SYM2
	REQUIRES(c != 0);
	errno = 0;
	IS("x / y", x / y, a / c, (b * c - a * d) / (c * c));
	IS("x / r", x / c, a / c, b / c);
	IS("r / x", a / y, a / c, -a * d / (c * c));
	IS("inverse", y.inverse(), 1 / c, -d / (c * c));
	dual q = x / y;
	IS("(x / y) * y", q * y, a, b);
	NO_ERROR();
}
CONTRACT(dual_inplace) {
	SYM2
	dual r = x; dual* p = &(r += y); ENSURES("returns itself", p == &r); IS("x += y", r, a + c, b + d);
	r = x; p = &(r -= y); ENSURES("returns itself", p == &r); IS("x -= y", r, a - c, b - d);
	r = x; p = &(r *= y); ENSURES("returns itself", p == &r); IS("x *= y", r, a * c, a * d + b * c);
	r = x; r += c; IS("x += r", r, a + c, b);
	r = x; r -= c; IS("x -= r", r, a - c, b);
	r = x; r *= c; IS("x *= r", r, a * c, b * c);
	r = x; r = c; IS("x = r", r, c, 0.0);
	IS("operands unchanged", y, c, d);
	r = x; r += r; IS("x += x", r, 2 * a, 2 * b);
	r = x; r *= r; IS("x *= x", r, a * a, 2 * a * b);
	r = x; r -= r; IS("x -= x", r, 0.0, 0.0);
}
CONTRACT(dual_inplace_division) {
	SYM2
	REQUIRES(c != 0);
	dual r = x; dual* p = &(r /= y); ENSURES("returns itself", p == &r); IS("x /= y", r, a / c, (b * c - a * d) / (c * c));
	r = x; r /= c; IS("x /= r", r, a / c, b / c);
	r = y; r /= r; IS("y /= y", r, 1.0, 0.0);
}
CONTRACT(dual_errors) {
	real a = REAL("a"), b = REAL("b"), d = REAL("d");
	errno = 0;
	dual r = dual(0, d).inverse();
	ENSURES("inverse of a zero real part is an error", errno != 0);
	ENSURES_NAN("inverse gives NaN", r.Re()); ENSURES_NAN("inverse gives NaN", r.Dual());
	errno = 0;
	r = dual(a, b); r /= 0.0;
	ENSURES("division by zero is an error", errno != 0);
	ENSURES_NAN("division by zero gives NaN", r.Re()); ENSURES_NAN("division by zero gives NaN", r.Dual());
}
CONTRACT(dual_access) {
	real a = REAL("a"), b = REAL("b"), c = REAL("c");
	dual x(a, b);
	ENSURES_EQ("Re(x)", Re(x), a); ENSURES_EQ("Dual(x)", Dual(x), b);
	x.Re() = c; IS("x.Re() writes the real part only", x, c, b);
	x.Dual() = a; IS("x.Dual() writes the dual part only", x, c, a);
	vec2 v = x.to_vec(); ENSURES_EQ("to_vec", v[0], c); ENSURES_EQ("to_vec", v[1], a);
	dual y; IS("default is zero", y, 0.0, 0.0);
	y.from_vec(v); IS("from_vec inverts to_vec", y, c, a);
	dual z(v); IS("dual(vec2)", z, c, a);
	dual w(7, 8); dual* p = &(w = v); ENSURES("returns itself", p == &w); IS("= vec2", w, c, a);
	p = &(w = b); ENSURES("returns itself", p == &w); IS("= real", w, b, 0.0);
	std::array<real, 2> g = {{a, b}}; p = &(w = g); ENSURES("returns itself", p == &w); IS("= array", w, a, b);
	ENSURES("x == x", y == x);
	ENSURES("== compares both parts", (dual(a, b) == dual(c, b)) == (a == c) && (dual(a, b) == dual(a, c)) == (b == c));
	// matrix representation: multiplication of the representing matrices is multiplication of dual numbers
	mat2 m = x.to_mat();
	ENSURES_EQ("to_mat 00", m(0, 0), c); ENSURES_EQ("to_mat 11", m(1, 1), c); ENSURES_EQ("to_mat 01", m(0, 1), a); ENSURES_EQ("to_mat 10", m(1, 0), 0.0);
}

// value = scalar function of the library, dual part = derivative times b
#define FUN(name, f, pre, deriv) CONTRACT(dual_##name) { \
	real x = REAL("x"), b = REAL("b"); REQUIRES(pre); \
	errno = 0; dual r = f(dual(x, b)); NO_ERROR(); \
	ENSURES_EQ(#name ": value", r.Re(), f(x)); \
	ENSURES_EQ(#name ": derivative", r.Dual(), b * (deriv)); }
#define EX thv_exp(x)
FUN(sin, sin, true, thv_cos(x))
FUN(cos, cos, true, -thv_sin(x))
FUN(tan, tan, thv_cos(x) > 1E-15 || thv_cos(x) < -1E-15, 1 / (thv_cos(x) * thv_cos(x)))
FUN(cot, cot, thv_sin(x) > 1E-15 || thv_sin(x) < -1E-15, -1 / (thv_sin(x) * thv_sin(x)))
FUN(exp, exp, true, EX)
FUN(ln, ln, x > 0, 1 / x)
FUN(log2, log2, x > 0, (real) LOG2E / x)
FUN(log10, log10, x > 0, (real) LOG10E / x)
FUN(sqrt, sqrt, x > 0, 0.5 / thv_sqrt(x))
FUN(abs, abs, x != 0, x > 0 ? 1.0 : -1.0)
FUN(asin, asin, x > -1 && x < 1, 1 / thv_sqrt(1 - x * x))
FUN(acos, acos, x > -1 && x < 1, -1 / thv_sqrt(1 - x * x))
FUN(atan, atan, true, 1 / (1 + x * x))
FUN(sinh, sinh, true, (EX + 1 / EX) / 2)
FUN(cosh, cosh, true, (EX - 1 / EX) / 2)
FUN(tanh, tanh, true, 4 / ((EX + 1 / EX) * (EX + 1 / EX)))

CONTRACT(dual_pow) {
	BOUNDED(EXPONENTS);
	const int n = ANY_EXPONENT();
	real x = REAL("x"), b = REAL("b"); REQUIRES(x != 0);
	errno = 0;
	dual r = pow(dual(x, b), n);
	real p = 1; for (int i = 0; i < (n < 0 ? -n : n); i++) p *= x;
	if (n < 0) p = 1 / p;
	ENSURES_EQ("pow: value", r.Re(), p);
	ENSURES_EQ("pow: derivative", r.Dual(), n * p / x * b);
	NO_ERROR();
}
#define BADDOM(name, f, pre) CONTRACT(dual_##name##_domain) { \
	real x = REAL("x"), b = REAL("b"); REQUIRES(pre); \
	errno = 0; dual r = f(dual(x, b)); SOME_ERROR(); ENSURES_NAN(#name ": NaN outside the domain", r.Re()); ENSURES_NAN(#name ": NaN outside the domain", r.Dual()); }
BADDOM(ln, ln, x <= 0)
BADDOM(log2, log2, x <= 0)
BADDOM(log10, log10, x <= 0)
BADDOM(sqrt, sqrt, x <= 0)
BADDOM(asin, asin, x >= 1 || x <= -1)
BADDOM(acos, acos, x >= 1 || x <= -1)
BADDOM(tan, tan, thv_cos(x) == 0)
BADDOM(cot, cot, thv_sin(x) == 0)
