#include "thvlib.h"
typedef polynomial<real> P;
static real coef(const P& p, unsigned i) { return i < p.size() ? p[i] : 0; }
static P sym_poly(const char* n, unsigned k) {
	P p;
	p.coeff = sym_stdvec(n, k);
	return p;
}
static real factorial(unsigned n) { real f = 1; for (unsigned i = 2; i <= n; i++) f *= i; return f; }
static real choose(unsigned n, unsigned k) { real r = 1; for (unsigned i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static real power(real x, unsigned n) { real r = 1; for (unsigned i = 0; i < n; i++) r *= x; return r; }
static real value(const P& p, real x) { real s = 0; for (unsigned i = 0; i < p.size(); i++) s += p[i] * power(x, i); return s; }
// explicit coefficients
static real legendre(unsigned n, unsigned i) {
	if (i > n || (n - i) % 2) return 0;
	const unsigned k = (n - i) / 2;
	return (k % 2 ? -1 : 1) * choose(n, k) * choose(2 * n - 2 * k, n) / power(2, n);
}
static real laguerre(real a, unsigned n, unsigned i) {
	if (i > n) return 0;
	real r = (i % 2 ? -1 : 1) / (factorial(i) * factorial(n - i));
	for (unsigned j = i + 1; j <= n; j++) r *= a + j;
	return r;
}
static real hermite(unsigned n, unsigned i) {
	if (i > n || (n - i) % 2) return 0;
	const unsigned m = (n - i) / 2;
	return (m % 2 ? -1 : 1) * factorial(n) / (factorial(m) * factorial(i)) * power(2, i);
}
#define DEG "degrees up to 12, 15, 16, 17, 20, 24, 32"
CONTRACT(legendre_coefficients) {
	BOUNDED(DEG);
	const unsigned n = (unsigned) PICK_OR("n", 0, 12, 15, 16, 17, 20, 24, 32);
	const P p = legendre_polynomial(n);
	for (unsigned i = 0; i < n + 3; i++) ENSURES_EQ("coefficient", coef(p, i), legendre(n, i));
	ENSURES("degree", p.find_order() == n);
	NO_ERROR();
}
CONTRACT(laguerre_coefficients) {
	BOUNDED(DEG);
	const unsigned n = (unsigned) PICK_OR("n", 0, 12, 15, 16, 17, 20, 24, 32);
	const P p = laguerre_polynomial(n);
	for (unsigned i = 0; i < n + 3; i++) ENSURES_EQ("coefficient", coef(p, i), laguerre(0, n, i));
	NO_ERROR();
}
CONTRACT(general_laguerre_coefficients) {
	BOUNDED("degrees up to 12, 16");
	const unsigned n = (unsigned) PICK_OR("n", 0, 12, 16);
	const real a = REAL("alpha");
	const P p = general_laguerre_polynomial(a, n);
	for (unsigned i = 0; i < n + 3; i++) ENSURES_EQ("coefficient", coef(p, i), laguerre(a, n, i));
	NO_ERROR();
}
CONTRACT(hermite_coefficients) {
	BOUNDED(DEG);
	const unsigned n = (unsigned) PICK_OR("n", 0, 12, 15, 16, 17, 20, 24, 32);
	const P p = hermite_polynomial(n);
	for (unsigned i = 0; i < n + 3; i++) ENSURES_EQ("coefficient", coef(p, i), hermite(n, i));
	NO_ERROR();
}
CONTRACT(chebyshev_functions) {
	BOUNDED(DEG);
	const unsigned n = (unsigned) PICK_OR("n", 0, 12, 15, 16, 17, 20, 24, 32);
	const real z = REAL("z");
	REQUIRES(z > 0);
	const P t = chebyshev1_polynomial(n), u = chebyshev2_polynomial(n);
	const real x = (z + 1 / z) / 2;
	ENSURES_EQ("first kind: cos(n t) of cos(t)", 2 * value(t, x), power(z, n) + 1 / power(z, n));
	ENSURES_EQ("second kind: sin((n + 1) t) / sin(t) of cos(t)", value(u, x) * (z - 1 / z), power(z, n + 1) - 1 / power(z, n + 1));
	NO_ERROR();
}
// One step of the recurrences, for any polynomials and any index
CONTRACT(recurrence_step) {
	BOUNDED("recurrence steps of polynomials of up to 10, 24 coefficients, any index");
	const unsigned n = (unsigned) PICK_OR("n", 0, 9, 23);
	const uint32_t l = thv_u32("l", 2, 1u << 30);
	const P a = sym_poly("a", n), b = sym_poly("b", n + 1);
	const real al = REAL("alpha"), L = l;
	const P p = legendre_polyn_recurr(a, b, l), g = laguerre_polyn_recurr(a, b, l), s = general_laguerre_polyn_recurr(a, b, al, l),
	        h = hermite_polyn_recurr(a, b, l), t = chebyshev_polyn_recurr(a, b, l);
	for (unsigned i = 0; i < n + 4; i++) {
		const real xb = i ? coef(b, i - 1) : 0, A = coef(a, i), B = coef(b, i);
		ENSURES_EQ("Legendre", coef(p, i) * L, (2 * L - 1) * xb - (L - 1) * A);
		ENSURES_EQ("Laguerre", coef(g, i) * L, (2 * L - 1) * B - xb - (L - 1) * A);
		ENSURES_EQ("generalised Laguerre", coef(s, i) * L, (2 * L - 1 + al) * B - xb - (L - 1 + al) * A);
		ENSURES_EQ("Hermite", coef(h, i), 2 * xb - 2 * (L - 1) * A);
		ENSURES_EQ("Chebyshev", coef(t, i), 2 * xb - A);
	}
}
CONTRACT(recurrence) {
	BOUNDED("recurrences of up to 12, 40 terms");
	const unsigned n = (unsigned) PICK_OR("n", 0, 12, 40);
	real a = REAL("P0"), b = REAL("P1");
	const P r = gen_polyn_recurr(P({a}), P({b}), [](P x, P y, unsigned l) { return P({thv_fn3("f", x[0], y[0], real(l))}); }, n);
	for (unsigned l = 2; l <= n; l++) { const real c = thv_fn3("f", a, b, real(l)); a = b; b = c; }
	ENSURES_EQ("n-th term", r[0], n == 0 ? a : b);
}
CONTRACT(normalization) {
	BOUNDED("degrees up to 30");
	const unsigned n = (unsigned) PICK("n", 0, 30);
	const real l = legendre_polyn_normalization(n), h = hermite_polyn_normalization(n);
	ENSURES_EQ("Legendre", l * l, (2 * n + 1) / 2.0);
	ENSURES("positive", l > 0 && h > 0);
	ENSURES_NEAR("Hermite", h * h * power(2, n) * factorial(n) * thv_sqrt(PI), 1, 1E-12);
	NO_ERROR();
}
// d^m/dx^m of the Legendre polynomial
static real dlegendre(unsigned l, unsigned m, real x) {
	real s = 0;
	for (unsigned i = m; i <= l; i++) {
		real c = legendre(l, i);
		for (unsigned k = 0; k < m; k++) c *= i - k;
		s += c * power(x, i - m);
	}
	return s;
}
CONTRACT(associated_legendre) {
	BOUNDED("associated Legendre polynomials with l up to 8");
	const unsigned l = (unsigned) PICK("l", 0, 8);
	const int m = (int) PICK("m", -8, 8);
	const unsigned k = m < 0 ? -m : m;
	REQUIRES(k <= l);
	const real x = REAL("x");
	REQUIRES(x > -1 && x < 1);
	const real r = assoc_legendre_polynomial(l, m)(x);
	real e = (k % 2 ? -1 : 1) * dlegendre(l, k, x);
	if (m < 0) e *= (k % 2 ? -1 : 1) * factorial(l - k) / factorial(l + k);
	const real s = thv_sqrt(1 - x * x);
	ENSURES_EQ("definition, Condon-Shortley phase", r, e * power(1 - x * x, k / 2) * (k % 2 ? s : 1));
	NO_ERROR();
}
CONTRACT(associated_legendre_even) {
	BOUNDED("associated Legendre polynomials with l up to 10");
	const unsigned l = (unsigned) PICK("l", 0, 10);
	const int m = (int) PICK("m", -10, 10);
	const unsigned k = m < 0 ? -m : m;
	REQUIRES(k <= l);
	const P p = assoc_legendre_polynomial_even(l, m);
	if (k % 2) {
		ENSURES_NAN("NaN", p[0]);
		SOME_ERROR();
		return;
	}
	const real x = REAL("x");
	ENSURES_EQ("definition", value(p, x), dlegendre(l, k, x) * power(1 - x * x, k / 2) * (m < 0 ? factorial(l - k) / factorial(l + k) : 1));
	NO_ERROR();
}
// Weights for any nodes
CONTRACT(weights) {
	BOUNDED("weights of up to 4 (6) nodes");
	NODIV0();
	const unsigned n = (unsigned) PICK("n", 0, TIER(4, 6)), k = (unsigned) PICK("rule", 0, 2);
	const std::vector<real> x = sym_stdvec("x", n);
	const std::vector<real> w = k == 0 ? legendre_weights(x) : k == 1 ? laguerre_weights(x) : hermite_weights(x);
	ENSURES("one weight each", w.size() == n);
	for (unsigned i = 0; i < n; i++) {
		const real d = dlegendre(n, 1, x[i]);
		real v = 0, u = 0;
		for (unsigned j = 0; j <= n + 1; j++) v += laguerre(0, n + 1, j) * power(x[i], j);
		for (unsigned j = 0; j < n; j++) u += hermite(n - 1, j) * power(x[i], j);
		if (k == 0) ENSURES_EQ("Legendre", w[i] * (1 - x[i] * x[i]) * d * d, 2);
		if (k == 1) ENSURES_EQ("Laguerre", w[i] * (n + 1) * (n + 1) * v * v, x[i]);
		if (k == 2) ENSURES_EQ("Hermite", w[i] * n * n * u * u, power(2, n - 1) * factorial(n) * SQRTPI);
	}
	NO_ERROR();
}
CONTRACT(legendre_nodes) {
	IEEE();
	BOUNDED("Gauss-Legendre nodes and weights computed for up to 20 (30) points");
	const unsigned n = (unsigned) PICK("n", 0, TIER(20, 30));
	const std::vector<real> x = legendre_roots(n), w = legendre_weights(x);
	ENSURES("number", x.size() == n && w.size() == n);
	const P p = legendre_polynomial(n);
	for (unsigned i = 0; i < n; i++) {
		ENSURES("inside of the interval", x[i] > -1 && x[i] < 1);
		ENSURES_NEAR("root", p(x[i]), 0, 1E-7);
		if (i) ENSURES("distinct, increasing", x[i] > x[i - 1] + 1E-3);
		ENSURES_NEAR("symmetric", x[i] + x[n - 1 - i], 0, 1E-7);
		ENSURES("positive weights", w[i] > 0);
	}
	if (n) for (unsigned k = 0; k < 2 * n; k++) {
		real s = 0;
		for (unsigned i = 0; i < n; i++) s += w[i] * power(x[i], k);
		ENSURES_NEAR("exact for powers up to 2n - 1", s, k % 2 ? 0 : 2.0 / (k + 1), 1E-6);
	}
	NO_ERROR();
}
