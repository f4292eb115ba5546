#include "thvlib.h"
typedef polynomial<real> P;
#define SIZES "polynomials of up to 8, of 16 and of 33 coefficients"
static P sym_poly(const char* n, unsigned k) {
	P p;
	p.coeff = sym_stdvec(n, k);
	return p;
}
// value by definition
static real val(const P& p, real x) {
	real s = 0, t = 1;
	for (unsigned i = 0; i < p.size(); i++) { s += p[i] * t; t *= x; }
	return s;
}
static real coef(const P& p, unsigned i) { return i < p.size() ? p[i] : 0; }
CONTRACT(evaluation) {
	const unsigned n = PICK_OR("n", 0, 12, 16, 33, 65, 100);
	BOUNDED("evaluation of polynomials of up to 12, 16, 33, 65 and 100 coefficients");
	const P p = sym_poly("p", n);
	const real x = REAL("x");
	ENSURES_EQ("eval", p.eval(x), val(p, x));
	ENSURES_EQ("operator()", p(x), val(p, x));
	for (unsigned i = 0; i < n; i++) { ENSURES_EQ("get", p.get(i), p.coeff[i]); P q = p; ENSURES_EQ("at", q.at(i), p[i]); }
	ENSURES("size", p.size() == n);
}
CONTRACT(sum_difference) {
	const unsigned n = PICK_OR("n", 0, 12, 16, 33), m = PICK_OR("m", 0, 12, 16, 33);
	BOUNDED(SIZES);
	const P p = sym_poly("p", n), q = sym_poly("q", m);
	P a = p, s = p;
	P& ra = (a += q); P& rs = (s -= q);
	const P u = p + q, d = p - q;
	ENSURES("returns the target", &ra == &a && &rs == &s);
	for (unsigned i = 0; i < n + m + 1; i++) {
		ENSURES_EQ("sum", coef(u, i), coef(p, i) + coef(q, i));
		ENSURES_EQ("difference", coef(d, i), coef(p, i) - coef(q, i));
		ENSURES_EQ("+=", coef(a, i), coef(p, i) + coef(q, i));
		ENSURES_EQ("-=", coef(s, i), coef(p, i) - coef(q, i));
	}
	ENSURES("size", u.size() == (n > m ? n : m) && d.size() == u.size() && a.size() == u.size() && s.size() == u.size());
}
CONTRACT(sum_difference_equal) {
	const unsigned n = PICK("n", 13, 64);
	BOUNDED("two polynomials of equal size up to 64");
	const P p = sym_poly("p", n), q = sym_poly("q", n);
	const P u = p + q, d = p - q;
	for (unsigned i = 0; i < n + 1; i++) {
		ENSURES_EQ("sum", coef(u, i), coef(p, i) + coef(q, i));
		ENSURES_EQ("difference", coef(d, i), coef(p, i) - coef(q, i));
	}
	ENSURES("size", u.size() == n && d.size() == n);
}
CONTRACT(product) {
	const unsigned n = PICK_OR("n", 0, 8, 16, 33), m = PICK_OR("m", 0, 8, 16, 33);
	BOUNDED(SIZES);
	const P p = sym_poly("p", n), q = sym_poly("q", m);
	P a = p;
	a *= q;
	const P u = p * q;
	for (unsigned k = 0; k < n + m + 1; k++) {
		real c = 0;
		for (unsigned i = 0; i <= k; i++) c += coef(p, i) * coef(q, k - i);
		ENSURES_EQ("convolution of the coefficients", coef(u, k), c);
		ENSURES_EQ("*=", coef(a, k), c);
	}
	ENSURES("size", u.size() <= n + m && a.size() == u.size());
	P b = p;
	b *= b;
	const real x = REAL("x");
	ENSURES_EQ("square in place", val(b, x), val(p, x) * val(p, x));
}
CONTRACT(scalars) {
	const unsigned n = PICK_OR("n", 0, 8, 16, 33);
	BOUNDED(SIZES);
	const P p = sym_poly("p", n);
	const real a = REAL("a");
	P m = p;
	m *= a;
	const P r = p * a, l = a * p, pl = a + p, mi = a - p;
	for (unsigned i = 0; i < n + 2; i++) {
		ENSURES_EQ("p a", coef(r, i), coef(p, i) * a);
		ENSURES_EQ("a p", coef(l, i), coef(p, i) * a);
		ENSURES_EQ("*=", coef(m, i), coef(p, i) * a);
		ENSURES_EQ("a + p", coef(pl, i), coef(p, i) + (i == 0 ? a : 0));
		ENSURES_EQ("a - p", coef(mi, i), (i == 0 ? a : 0) - coef(p, i));
	}
	NO_ERROR();
}
CONTRACT(scalar_quotient) {
	const unsigned n = PICK_OR("n", 0, 8, 16, 33);
	BOUNDED(SIZES);
	const P p = sym_poly("p", n);
	const real a = REAL("a");
	REQUIRES(a > 1E-10 || a < -1E-10);
	P m = p;
	m /= a;
	const P r = p / a;
	for (unsigned i = 0; i < n; i++) {
		ENSURES_EQ("p / a", r[i] * a, p[i]);
		ENSURES_EQ("/=", m[i] * a, p[i]);
	}
	NO_ERROR();
}
CONTRACT(scalar_quotient_zero) {
	const P p = sym_poly("p", 3);
	P m = p;
	if (PICK("inplace", 0, 1)) m /= real(0); else m = p / real(0);
	SOME_ERROR();
}
// dividend of degree n, divisor of degree m, with up to two null coefficients on top of each
static P with_zeros(const char* name, unsigned deg, unsigned zeros) {
	P p = sym_poly(name, deg + 1);
	REQUIRES(p[deg] > 1E-10 || p[deg] < -1E-10);
	for (unsigned i = 0; i < zeros; i++) p.coeff.push_back(0);
	return p;
}
CONTRACT(long_division) {
	const unsigned n = (unsigned) PICK("n", 0, 5), m = (unsigned) PICK("m", 0, 4), z = (unsigned) PICK("z", 0, 2);
	BOUNDED("division of polynomials of degree up to 5 by degree up to 4");
	const P p = with_zeros("p", n, z % 2), d = with_zeros("d", m, z / 2);
	const P q = p / d;
	const P r = p - q * d;
	for (unsigned i = m; i < 10; i++) ENSURES_EQ("the remainder has lower degree than the divisor", coef(r, i), 0);
	for (unsigned i = (n >= m ? n - m + 1 : 0); i < q.size(); i++) ENSURES_EQ("degree of the quotient", q[i], 0);
	if (n < m) for (unsigned i = 0; i < 5; i++) ENSURES_EQ("nothing to divide", coef(q, i), 0);
	P a = p;
	a /= d;
	for (unsigned i = 0; i < 6; i++) ENSURES_EQ("/=", coef(a, i), coef(q, i));
	NO_ERROR();
}
CONTRACT(division_by_zero) {
	const unsigned k = (unsigned) PICK("k", 0, 3);
	P d;
	d.coeff = std::vector<real>(k, 0.0);
	const P q = sym_poly("p", 3) / d;
	SOME_ERROR();
	ENSURES("result marked", q.size() >= 1);
	ENSURES_NAN("NaN", q[0]);
}
CONTRACT(order_and_trim) {
	const unsigned n = PICK_OR("n", 0, 8, 16, 33), z = (unsigned) PICK("z", 0, 5);
	BOUNDED("degree up to 8, 16 and 33 with up to 5 null coefficients on top");
	const P p = with_zeros("p", n, z);
	ENSURES("order", p.find_order() == n);
	P t = p;
	t.trim();
	ENSURES("trimmed size", t.size() == n + 1);
	for (unsigned i = 0; i <= n; i++) ENSURES_EQ("trim keeps the coefficients", t[i], p[i]);
}
CONTRACT(order_of_zero) {
	const unsigned k = (unsigned) PICK("k", 0, 3);
	P d;
	d.coeff = std::vector<real>(k, 0.0);
	ENSURES("order of zero", d.find_order() == 0);
	d.trim();
	ENSURES("trim of zero", d.size() == 0);
	ENSURES_EQ("value of zero", d(REAL("x")), 0);
}
CONTRACT(equality) {
	const unsigned n = (unsigned) PICK("n", 0, 3), m = (unsigned) PICK("m", 0, 3);
	BOUNDED("equality of polynomials of up to 3 coefficients");
	const P p = sym_poly("p", n), q = sym_poly("q", m);
	bool same = true;
	for (unsigned i = 0; i < 3; i++) {
		const real d = coef(p, i) - coef(q, i);
		REQUIRES(d == 0 || d > 1E-10 || d < -1E-10);
		if (d != 0) same = false;
	}
	ENSURES("equal as polynomials", (p == q) == same);
}
CONTRACT(roots_and_monomials) {
	const unsigned n = (unsigned) PICK("n", 0, 8);
	BOUNDED("up to 8 roots");
	const std::vector<real> r = sym_stdvec("r", n);
	const P p = P::from_roots(r);
	const real x = REAL("x"), c = REAL("c");
	real v = 1, w = c;
	for (unsigned i = 0; i < n; i++) { v *= x - r[i]; w *= x; }
	ENSURES_EQ("product of (x - r)", val(p, x), v);
	const P m = P::monomial(c, n);
	ENSURES("size of a monomial", m.size() == n + 1);
	ENSURES_EQ("monomial", val(m, x), w);
}
CONTRACT(derivative_integral) {
	const unsigned n = PICK_OR("n", 1, 10, 16, 33, 65);
	BOUNDED("derivatives and integrals of up to 10, 16, 33 and 65 coefficients");
	const P p = sym_poly("p", n);
	const P d = deriv(p), I = integral(p);
	const real x = REAL("x"), a = REAL("a"), b = REAL("b");
	real s = 0, t = 1, A = 0, B = 0, ta = a, tb = b;
	for (unsigned i = 0; i < n; i++) {
		if (i > 0) { ENSURES_EQ("derivative", coef(d, i - 1), i * p[i]); s += i * p[i] * t; t *= x; }
		ENSURES_EQ("integral", I[i + 1] * (i + 1), p[i]);
		A += p[i] * ta / (i + 1); B += p[i] * tb / (i + 1);
		ta *= a; tb *= b;
	}
	ENSURES_EQ("derivative of the leading term", coef(d, n - 1), 0);
	ENSURES_EQ("constant term", I[0], 0);
	ENSURES("size", I.size() == n + 1);
	ENSURES_EQ("derivative at x", deriv(p, x), s);
	ENSURES_EQ("definite integral", integral(p, a, b), B - A);
	const P back = deriv(I);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("the derivative of the integral", coef(back, i), p[i]);
	NO_ERROR();
}
CONTRACT(deriv_empty) {
	const P d = deriv(P());
	SOME_ERROR();
	ENSURES_NAN("NaN", d[0]);
}
CONTRACT(taylor_linear) {
	const real x0 = REAL("x0"), x = REAL("x");
	const real f = thv_fn1("f", x0), df = thv_fn1("df", x0);
	const P p = taylor::expand_linear([&](dual d) { return dual(thv_fn1("f", d.Re()), thv_fn1("df", d.Re()) * d.Dual()); }, x0);
	ENSURES_EQ("f + f' (x - x0)", val(p, x), f + df * (x - x0));
}
CONTRACT(taylor_quadratic) {
	const real x0 = REAL("x0"), x = REAL("x");
	const real f = thv_fn1("f", x0), df = thv_fn1("df", x0), d2f = thv_fn1("d2f", x0);
	const P p = taylor::expand_quadratic([&](dual2 d) {
		const real g = thv_fn1("df", d.Re()), h = thv_fn1("d2f", d.Re());
		return dual2(thv_fn1("f", d.Re()), g * d.Dual1(), h * d.Dual1() * d.Dual1() + g * d.Dual2()); }, x0);
	ENSURES_EQ("f + f' (x - x0) + f'' (x - x0)^2 / 2", val(p, x), f + df * (x - x0) + d2f * (x - x0) * (x - x0) / 2);
}
CONTRACT(quadratic) {
	const unsigned z = (unsigned) PICK("z", 0, 1);
	const real a = REAL("a"), b = REAL("b"), c = REAL("c");
	REQUIRES(a > 1E-10 || a < -1E-10);
	REQUIRES(c == 0 || c > 1E-10 * a && c > -1E-10 * a || c < 1E-10 * a && c < -1E-10 * a);
	const real D = b * b - 4 * a * c, tiny = 1E-10 * (a * a + b * b);
	REQUIRES(D == 0 || D > tiny || D < -tiny);     // complex square roots drop parts below the machine epsilon
	P p = {c, b, a};
	if (z) p.coeff.push_back(0);
	const vec<complex<>, 2> r = p.quadratic_roots();
	const real s = r[0].Re() + r[1].Re(), si = r[0].Im() + r[1].Im();
	const real m = r[0].Re() * r[1].Re() - r[0].Im() * r[1].Im(), mi = r[0].Re() * r[1].Im() + r[0].Im() * r[1].Re();
	ENSURES_EQ("sum of the roots", s * a, -b);
	ENSURES_EQ("sum of the roots (imaginary)", si, 0);
	ENSURES_EQ("product of the roots", m * a, c);
	ENSURES_EQ("product of the roots (imaginary)", mi, 0);
	NO_ERROR();
}
CONTRACT(quadratic_wrong_order) {
	const unsigned n = (unsigned) PICK("n", 0, 4);
	if (n == 2) return;
	const P p = with_zeros("p", n, 1);
	const vec<complex<>, 2> r = p.quadratic_roots();
	SOME_ERROR();
	ENSURES_NAN("NaN", r[0].Re());
	ENSURES_NAN("NaN", r[1].Re());
}
