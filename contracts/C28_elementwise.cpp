#include "thvlib.h"
namespace par = theoretica::parallel;
// index, function of the namespace parallel and of the library
#define ALL(X) X(0, square) X(1, cube) X(2, abs) X(3, sqrt) X(4, cbrt) X(5, exp) X(6, ln) X(7, log2) X(8, log10) X(9, sin) X(10, cos) X(11, tan) X(12, cot) \
	X(13, asin) X(14, acos) X(15, atan) X(16, sinh) X(17, cosh) X(18, tanh) X(19, coth)
#define PAR(i, f) case i: return par::f(v);
#define ONE(i, f) case i: return th::f(x);
template<typename Vector> static Vector all(unsigned k, const Vector& v) { switch (k) { ALL(PAR) default: return v; } }
static real one(unsigned k, real x) { switch (k) { ALL(ONE) default: return x; } }
// a value where the k-th function is defined and not constant
static real domain(unsigned k, const char* n) {
	const real x = REAL(n);
	if (k == 3 || (k >= 6 && k <= 8)) REQUIRES(x > 0);
	else if (k == 13 || k == 14) REQUIRES(x > 0.25 && x < 0.75);
	else if (k == 11 || k == 12 || k == 19) REQUIRES(x > 0.5 && x < 1);
	else REQUIRES(x > 0.125 && x < 0.5);
	return x;
}
static real F(real x) { return thv_fn1("f", x); }
#define SPLIT_FUNCTIONS const unsigned k = (unsigned) PICK("function", 0, 19);
CONTRACT(dynamic_vectors) {
	BOUNDED("vectors of 0 to 3, 8, 17, 33 elements");
	SPLIT_FUNCTIONS
	const unsigned n = (unsigned) PICK_OR("n", 0, 3, 8, 17, 33);
	vec<real> v(n);
	for (unsigned i = 0; i < n; i++) v[i] = domain(k, "v");
	const vec<real> r = all(k, v);
	ENSURES("size", r.size() == n);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("element", r[i], one(k, v[i]));
	NO_ERROR();
}
CONTRACT(fixed_vectors) {
	BOUNDED("vectors of 2 elements");
	SPLIT_FUNCTIONS
	const vec<real, 2> v = {domain(k, "v"), domain(k, "w")}, r = all(k, v);
	for (unsigned i = 0; i < 2; i++) ENSURES_EQ("element", r[i], one(k, v[i]));
	NO_ERROR();
}
CONTRACT(standard_vectors) {
	BOUNDED("vectors of 2 elements");
	SPLIT_FUNCTIONS
	const std::vector<real> v = {domain(k, "v"), domain(k, "w")}, r = all(k, v);
	ENSURES("size", r.size() == 2);
	for (unsigned i = 0; i < 2; i++) ENSURES_EQ("element", r[i], one(k, v[i]));
}
CONTRACT(any_function) {
	BOUNDED("vectors of up to 40, 64, 100, 257 elements");
	const unsigned n = (unsigned) PICK_OR("n", 0, 40, 64, 100, 257);
	const vec<real> v = sym_dvec("v", n), r = par::apply_function(F, v);
	const std::vector<real> w = sym_stdvec("w", n), s = par::apply_function(F, w);
	ENSURES("size", r.size() == n && s.size() == n);
	for (unsigned i = 0; i < n; i++) { ENSURES_EQ("element", r[i], F(v[i])); ENSURES_EQ("element", s[i], F(w[i])); }
}
CONTRACT(powers) {
	BOUNDED("vectors of 3 elements, exponents from -10 to 10");
	const int p = (int) PICK("p", -10, 10);
	const real a = REAL("a");
	vec<real> v = sym_dvec("v", 3);
	for (unsigned i = 0; i < 3; i++) REQUIRES(v[i] > 0.125 && v[i] < 8);
	const vec<real> r = par::pow(v, p), s = par::powf(v, a);
	ENSURES("size", r.size() == 3 && s.size() == 3);
	for (unsigned i = 0; i < 3; i++) {
		real x = 1;
		for (int k = 0; k < (p < 0 ? -p : p); k++) x *= v[i];
		ENSURES_EQ("integer power", p < 0 ? r[i] * x : r[i], p < 0 ? 1 : x);
		ENSURES_EQ("real power", s[i], thv_exp(a * thv_ln(v[i])));
	}
}
CONTRACT(errors) {
	BOUNDED("vectors of 3 elements");
	const unsigned j = (unsigned) PICK("j", 0, 2);
	vec<real> v = sym_dvec("v", 3);
	for (unsigned i = 0; i < 3; i++) { if (i == j) REQUIRES(v[i] < 0); else REQUIRES(v[i] > 0); }
	const vec<real> r = par::sqrt(v);
	for (unsigned i = 0; i < 3; i++) if (i == j) ENSURES_NAN("the invalid element", r[i]); else ENSURES_EQ("the others", r[i] * r[i], v[i]);
	SOME_ERROR();
}
CONTRACT(complex_elements) {
	BOUNDED("vectors of 2 complex elements");
	vec<complex<real>, 2> v;
	for (unsigned i = 0; i < 2; i++) v[i] = complex<real>(REAL("a"), REAL("b"));
	const vec<complex<real>, 2> r = par::square(v);
	for (unsigned i = 0; i < 2; i++) {
		ENSURES_EQ("real part", r[i].Re(), v[i].Re() * v[i].Re() - v[i].Im() * v[i].Im());
		ENSURES_EQ("imaginary part", r[i].Im(), 2 * v[i].Re() * v[i].Im());
	}
}
// Ratios
typedef ratio<real> Q;
CONTRACT(ratios) {
	const real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d");
	REQUIRES(b != 0 && d != 0);
	Q p(a, b), q(c, d);
	ENSURES_EQ("value", p.eval() * b, a);
	ENSURES_EQ("value as a type", p.eval_as<real>() * b, a);
	ENSURES_EQ("conversion", real(p) * b, a);
	ENSURES_EQ("sum", (p + q).eval(), a / b + c / d);
	ENSURES_EQ("difference", (p - q).eval(), a / b - c / d);
	ENSURES_EQ("product", (p * q).eval(), a / b * (c / d));
	ENSURES_EQ("product with a number", (p * c).eval(), a / b * c);
	ENSURES_EQ("quotient by a number", (p / d).eval(), a / b / d);
	if (c != 0) ENSURES_EQ("quotient", (p / q).eval(), a / b / (c / d));
	ENSURES("operands are unchanged", p.num == a && p.den == b && q.num == c && q.den == d);
	NO_ERROR();
}
CONTRACT(integer_ratios) {
	const int32_t a = thv_i32("a", -1000, 1000), b = thv_i32("b", 1, 1000), c = thv_i32("c", -1000, 1000), d = thv_i32("d", 1, 1000);
	const ratio<int> p(a, b), q(c, d), s = p + q, t = p - q, m = p * q, e = p / q;
	ENSURES("sum", s.num == a * d + c * b && s.den == b * d);
	ENSURES("difference", t.num == a * d - c * b && t.den == b * d);
	ENSURES("product", m.num == a * c && m.den == b * d);
	ENSURES("quotient", e.num == a * d && e.den == b * c);
	ENSURES("default", ratio<int>().num == 0 && ratio<int>().den == 0);
}
CONTRACT(polynomial_ratios) {
	BOUNDED("ratios of linear polynomials");
	typedef polynomial<real> P;
	const P a({REAL("a0"), REAL("a1")}), b({REAL("b0"), REAL("b1")}), c({REAL("c0"), REAL("c1")}), d({REAL("d0"), REAL("d1")});
	const ratio<P> p(a, b), q(c, d), s = p + q, m = p * q, e = p / q;
	const real x = REAL("x");
	ENSURES_EQ("sum", s.num(x), a(x) * d(x) + c(x) * b(x));
	ENSURES_EQ("denominator", s.den(x), b(x) * d(x));
	ENSURES_EQ("product", m.num(x) * e.num(x), a(x) * c(x) * a(x) * d(x));
	ENSURES_EQ("product", m.den(x) * e.den(x), b(x) * d(x) * b(x) * c(x));
}
