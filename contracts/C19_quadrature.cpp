#include "thvlib.h"
// Quadrature and finite differences: f is an uninterpreted function (any function at all) or a polynomial with
// symbolic coefficients (degree of exactness).
static real F(real x) { return thv_fn1("f", x); }
static real ipow(real x, unsigned k) { real p = 1; for (unsigned i = 0; i < k; i++) p *= x; return p; }
struct Poly {
	real c[16]; unsigned n;
	Poly(unsigned deg) : n(deg + 1) { for (unsigned i = 0; i < n; i++) c[i] = REAL("c"); }
	real operator()(real x) const { real r = 0; for (unsigned i = 0; i < n; i++) r = r * x + c[n - 1 - i]; return r; }
	real area(real a, real b) const { real r = 0; for (unsigned i = 0; i < n; i++) r += c[i] * (ipow(b, i + 1) - ipow(a, i + 1)) / (i + 1); return r; }
	real slope(real x) const { real r = 0; for (unsigned i = 1; i < n; i++) r += i * c[i] * ipow(x, i - 1); return r; }
	real curve(real x) const { real r = 0; for (unsigned i = 2; i < n; i++) r += i * (i - 1) * c[i] * ipow(x, i - 2); return r; }
};
#define STEPS(what) BOUNDED(what ": 1 to 24 (64), 31-33, 63-65, 99-101, 127-129, 200 and 256 steps, and the default of 100"); \
	const unsigned pick = PICK_OR("steps", 0, TIER(24, 64), 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 256), n = pick ? pick : 100; \
	const real a = REAL("a"), b = REAL("b"), h = (b - a) / n;
CONTRACT(midpoint_rule) {
	STEPS("midpoint rule")
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += F(a + (2 * i + 1) * h / 2);
	ENSURES_EQ("midpoint rule", pick ? integral_midpoint(F, a, b, n) : integral_midpoint(F, a, b), s * h);
	NO_ERROR();
}
CONTRACT(trapezoid_rule) {
	STEPS("trapezoid rule")
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += (F(a + i * h) + F(a + (i + 1) * h)) / 2;
	ENSURES_EQ("trapezoid rule", pick ? integral_trapezoid(F, a, b, n) : integral_trapezoid(F, a, b), s * h);
	NO_ERROR();
}
CONTRACT(simpson_rule) {
	STEPS("Simpson's rule")
	const unsigned m = n + n % 2;
	const real k = (b - a) / m;
	real s = 0;
	for (unsigned i = 0; i < m; i += 2) s += (F(a + i * k) + 4 * F(a + (i + 1) * k) + F(a + (i + 2) * k)) / 3;
	if (n % 2 == 0)
		ENSURES_EQ("Simpson's rule", pick ? integral_simpson(F, a, b, n) : integral_simpson(F, a, b), s * k);
	const Poly p(3);
	ENSURES_EQ("exact for cubics", integral_simpson(p, a, b, n), p.area(a, b));
	NO_ERROR();
}
CONTRACT(linear_exact) {
	STEPS("midpoint and trapezoid rules")
	const Poly p(1);
	ENSURES_EQ("midpoint exact", integral_midpoint(p, a, b, n), p.area(a, b));
	ENSURES_EQ("trapezoid exact", integral_trapezoid(p, a, b, n), p.area(a, b));
}
CONTRACT(no_steps) {
	const unsigned k = (unsigned) PICK("rule", 0, 4);
	const real a = REAL("a"), b = REAL("b");
	const real r = k == 0 ? integral_midpoint(F, a, b, 0) : k == 1 ? integral_trapezoid(F, a, b, 0) : k == 2 ? integral_simpson(F, a, b, 0) :
		k == 3 ? integral_romberg(F, a, b, 0) : deriv_ridders(F, a, b, 0);
	ENSURES_NAN("NaN", r);
	SOME_ERROR();
}
// Richardson extrapolation of the trapezoid rule
static real romberg(unsigned j, unsigned k, real a, real b) {
	if (k == 0) {
		const unsigned n = 1u << j;
		real s = (F(a) + F(b)) / 2;
		for (unsigned i = 1; i < n; i++) s += F(a + i * (b - a) / n);
		return s * (b - a) / n;
	}
	const real q = ipow(4, k);
	return (q * romberg(j, k - 1, a, b) - romberg(j - 1, k - 1, a, b)) / (q - 1);
}
CONTRACT(romberg_rule) {
	BOUNDED("Romberg's method: up to 8 iterations");
	const unsigned n = (unsigned) PICK("iterations", 1, 8);
	const real a = REAL("a"), b = REAL("b");
	ENSURES_EQ("extrapolated trapezoid rule", integral_romberg(F, a, b, n), romberg(n - 1, n - 1, a, b));
	NO_ERROR();
}
CONTRACT(romberg_exact) {
	BOUNDED("Romberg's method: up to 7 iterations");
	const unsigned n = (unsigned) PICK("iterations", 1, 7);
	const real a = REAL("a"), b = REAL("b");
	const Poly p(2 * n - 1);
	ENSURES_EQ("exact for polynomials", integral_romberg(p, a, b, n), p.area(a, b));
	NO_ERROR();
}
CONTRACT(romberg_default) {
	const real a = REAL("a"), b = REAL("b");
	const Poly p(9);
	ENSURES_EQ("exact for polynomials", integral_romberg(p, a, b), p.area(a, b));
}
CONTRACT(romberg_tolerance_cubic) {
	const unsigned k = (unsigned) PICK("form", 0, 3);
	const real a = REAL("a"), b = REAL("b"), tol = REAL("tolerance");
	REQUIRES(tol > 1E-6);
	const Poly p(3);
	ENSURES_EQ("exact for cubics", k == 0 ? integral_romberg_tol(p, a, b, tol) : k == 1 ? integral(p, a, b, tol) :
		k == 2 ? integral_romberg_tol(p, a, b) : integral(p, a, b), p.area(a, b));
	NO_ERROR();
}
CONTRACT(romberg_tolerance) {
	const real a = REAL("a"), b = REAL("b"), tol = REAL("tolerance");
	REQUIRES(tol > 1E-6);
	const Poly p(5);
	const real r = integral_romberg_tol(p, a, b, tol), t = (p(a) + p(b)) * (b - a) / 2, s = (b - a) / 6 * (p(a) + 4 * p((a + b) / 2) + p(b));
	if (abs(s - t) < tol)
		ENSURES_EQ("stops at the tolerance", r, s);
	else
		ENSURES_EQ("exact for quintics", r, p.area(a, b));
	NO_ERROR();
}
// Gaussian quadrature
CONTRACT(gauss_vectors) {
	BOUNDED("Gaussian quadrature: up to 12, 16, 17, 33, 64, 65 and 100 points");
	const unsigned n = PICK_OR("points", 0, 12, 16, 17, 33, 64, 65, 100);
	const std::vector<real> x = sym_stdvec("x", n), w = sym_stdvec("w", n);
	const real a = REAL("a"), b = REAL("b");
	real s = 0, l = 0;
	for (unsigned i = 0; i < n; i++) { s += w[i] * F(x[i]); l += w[i] * F((b - a) / 2 * x[i] + (a + b) / 2); }
	ENSURES_EQ("sum of weighted values", integral_gauss(F, x, w), s);
	ENSURES_EQ("over an interval", integral_legendre(F, a, b, x, w), l * (b - a) / 2);
	NO_ERROR();
}
CONTRACT(gauss_arrays) {
	BOUNDED("Gaussian quadrature: up to 12, 16, 17, 33, 64, 65 and 100 points");
	const unsigned n = PICK_OR("points", 0, 12, 16, 17, 33, 64, 65, 100);
	std::vector<real> x = sym_stdvec("x", n), w = sym_stdvec("w", n);
	const real a = REAL("a"), b = REAL("b");
	real s = 0, v = 0, l = 0;
	for (unsigned i = 0; i < n; i++) {
		s += w[i] * F(x[i]); v += w[i] * F(x[i]) * thv_fn1("winv", x[i]); l += w[i] * F((b - a) / 2 * x[i] + (a + b) / 2);
	}
	ENSURES_EQ("sum of weighted values", integral_gauss(F, x.data(), w.data(), n), s);
	ENSURES_EQ("inverse weights", integral_gauss(F, x.data(), w.data(), n, [](real t) { return thv_fn1("winv", t); }), v);
	ENSURES_EQ("over an interval", integral_legendre(F, a, b, x.data(), w.data(), n), l * (b - a) / 2);
}
CONTRACT(gauss_sizes) {
	BOUNDED("Gaussian quadrature: up to 5, 16, 33 points");
	const unsigned n = PICK_OR("points", 0, 5, 16, 33), m = PICK_OR("weights", 0, 5, 16, 33);
	REQUIRES(n != m);
	ENSURES_NAN("NaN", integral_gauss(F, sym_stdvec("x", n), sym_stdvec("w", m)));
	SOME_ERROR();
}
CONTRACT(legendre_tables) {
	const unsigned j = (unsigned) PICK("order", 0, 4), n = j == 0 ? 2 : j == 1 ? 4 : j == 2 ? 8 : 16;
	const unsigned k = (unsigned) PICK("degree", 0, 31), iv = (unsigned) PICK("interval", 0, 2);
	REQUIRES(k < 2 * n);
	const real a = iv == 0 ? -1 : iv == 1 ? 0 : 0.25, b = iv == 0 ? 1 : iv == 1 ? 1 : -0.75;
	const real r = j == 4 ? integral_legendre([=](real x) { return ipow(x, k); }, a, b) : integral_legendre([=](real x) { return ipow(x, k); }, a, b, n);
	ENSURES_NEAR("exact for powers up to 2n - 1", r, (ipow(b, k + 1) - ipow(a, k + 1)) / (k + 1), 1E-13);
	NO_ERROR();
}
CONTRACT(legendre_scaling) {
	const unsigned n = 2u << PICK("order", 0, 3);
	const real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d");
	const real r = integral_legendre([=](real x) { return c * x + d; }, a, b, n), q = (b - a) * (c * (a + b) / 2 + d);
	REQUIRES(a > -1000 && a < 1000 && b > -1000 && b < 1000 && c > -1000 && c < 1000 && d > -1000 && d < 1000);
	ENSURES_NEAR("linear functions over every interval", r, q, 1E-4);
}
CONTRACT(laguerre_tables) {
	const unsigned j = (unsigned) PICK("order", 0, 4), n = j == 0 ? 2 : j == 1 ? 4 : j == 2 ? 8 : 16;
	const unsigned k = (unsigned) PICK("degree", 0, 31);
	REQUIRES(k < 2 * n);
	real f = 1;
	for (unsigned i = 2; i <= k; i++) f *= i;
	const auto p = [=](real x) { return ipow(x, k); };
	ENSURES_NEAR("k! for powers up to 2n - 1", (j == 4 ? integral_laguerre(p) : integral_laguerre(p, n)) / f, 1, 1E-12);
	NO_ERROR();
}
CONTRACT(hermite_tables) {
	const unsigned j = (unsigned) PICK("order", 0, 4), n = j == 0 ? 2 : j == 1 ? 4 : j == 2 ? 8 : 16;
	const unsigned k = (unsigned) PICK("degree", 0, 31);
	REQUIRES(k < 2 * n);
	real g = k % 2 ? 0 : thv_sqrt(PI);
	for (unsigned i = 1; 2 * i <= k; i++) g *= (2 * i - 1) / 2.0;
	const auto p = [=](real x) { return ipow(x, k); };
	const real r = j == 4 ? integral_hermite(p) : integral_hermite(p, n);
	if (k % 2) ENSURES_NEAR("odd powers", r, 0, 1E-9);
	else ENSURES_NEAR("moments of the Gaussian up to 2n - 1", r / g, 1, 1E-12);
	NO_ERROR();
}
CONTRACT(tables_missing) {
	const unsigned n = (unsigned) PICK("order", 0, 33), k = (unsigned) PICK("rule", 0, 1);
	REQUIRES(n != 2 && n != 4 && n != 8 && n != 16);
	ENSURES_NAN("NaN", k ? integral_laguerre(F, n) : integral_hermite(F, n));
	SOME_ERROR();
}
// Integrals up to infinity
CONTRACT(infinite) {
	BOUNDED("integral_inf_riemann: functions null after two steps, 2 and 100 iterations");
	const real c = REAL("c"), a = REAL("a"), s = REAL("step");
	const unsigned m = (unsigned) PICK("iterations", 0, 1);
	REQUIRES(c > 1 && s > 1);
	const real_function f = [=](real x) { const real u = (x - a) / s; return u >= 2 ? 0 : c * (2 - u); };
	ENSURES_EQ("integral", m ? integral_inf_riemann(f, a, s, 1E-3, 2) : integral_inf_riemann(f, a, s), 2 * c * s);
	NO_ERROR();
}
CONTRACT(infinite_divergent) {
	BOUNDED("integral_inf_riemann: up to 3 iterations");
	const real c = REAL("c"), a = REAL("a"), s = REAL("step");
	const unsigned m = (unsigned) PICK("iterations", 1, 3);
	REQUIRES(c > 1 && s > 1);
	ENSURES_NAN("NaN", integral_inf_riemann([=](real) { return c; }, a, s, 1E-3, m));
	SOME_ERROR();
}
// Finite differences
CONTRACT(differences) {
	const real x = REAL("x"), h = REAL("h");
	REQUIRES(h != 0);
	ENSURES_EQ("central", deriv_central(F, x, h), (F(x + h) - F(x - h)) / (2 * h));
	ENSURES_EQ("forward", deriv_forward(F, x, h), (F(x + h) - F(x)) / h);
	ENSURES_EQ("backward", deriv_backward(F, x, h), (F(x) - F(x - h)) / h);
	ENSURES_EQ("second derivative", deriv2(F, x, h), (F(x + h) - 2 * F(x) + F(x - h)) / (h * h));
}
CONTRACT(differences_exact) {
	const real x = REAL("x"), h = REAL("h");
	REQUIRES(h != 0);
	const Poly p1(1), p2(2), p3(3), p4(4);
	ENSURES_EQ("forward", deriv_forward(p1, x, h), p1.slope(x));
	ENSURES_EQ("backward", deriv_backward(p1, x, h), p1.slope(x));
	ENSURES_EQ("central", deriv_central(p2, x, h), p2.slope(x));
	ENSURES_EQ("second derivative", deriv2(p3, x, h), p3.curve(x));
	ENSURES_EQ("extrapolated", deriv_ridders2(p4, x, h), p4.slope(x));
	ENSURES_EQ("best algorithm", deriv(p4, x, h), p4.slope(x));
}
CONTRACT(differences_default) {
	const real x = REAL("x");
	const Poly p1(1), p2(2), p3(3), p4(4), p6(6);
	ENSURES_EQ("forward", deriv_forward(p1, x), p1.slope(x));
	ENSURES_EQ("backward", deriv_backward(p1, x), p1.slope(x));
	ENSURES_EQ("central", deriv_central(p2, x), p2.slope(x));
	ENSURES_EQ("second derivative", deriv2(p3, x), p3.curve(x));
	ENSURES_EQ("extrapolated", deriv_ridders2(p4, x), p4.slope(x));
	ENSURES_EQ("best algorithm", deriv(p4, x), p4.slope(x));
	ENSURES_EQ("third degree", deriv_ridders(p6, x), p6.slope(x));
}
CONTRACT(ridders) {
	BOUNDED("Ridders' method: degrees 1 to 7");
	const unsigned d = (unsigned) PICK("degree", 1, 7);
	const real x = REAL("x"), h = REAL("h");
	REQUIRES(h != 0);
	const Poly p(2 * d);
	ENSURES_EQ("exact for polynomials", deriv_ridders(p, x, h, d), p.slope(x));
	ENSURES("errno", errno == 0);
}
// Quadrature over given nodes
CONTRACT(legendre_vectors) {
	BOUNDED("Gauss-Legendre quadrature over vectors of up to 12, 33 and 100 points");
	const unsigned n = PICK_OR("points", 0, 12, 33, 100);
	const std::vector<real> x = sym_stdvec("x", n), w = sym_stdvec("w", n);
	const real a = REAL("a"), b = REAL("b");
	real l = 0;
	for (unsigned i = 0; i < n; i++) l += w[i] * F((b - a) / 2 * x[i] + (a + b) / 2);
	ENSURES_EQ("weighted values over the interval", integral_legendre(F, a, b, x, w), l * (b - a) / 2);
	NO_ERROR();
}
CONTRACT(legendre_vectors_sizes) {
	BOUNDED("Gaussian quadrature: up to 5, 16, 33 points");
	const unsigned n = PICK_OR("points", 0, 5, 16, 33), m = PICK_OR("weights", 0, 5, 16, 33);
	REQUIRES(n != m);
	ENSURES_NAN("NaN", integral_legendre(F, 0, 1, sym_stdvec("x", n), sym_stdvec("w", m)));
	SOME_ERROR();
}
CONTRACT(gauss_nodes) {
	BOUNDED("Gaussian quadrature with weights computed from up to 3 nodes");
	NODIV0();
	const unsigned n = (unsigned) PICK("points", 0, 3), k = (unsigned) PICK("rule", 0, 3);
	const std::vector<real> x = sym_stdvec("x", n);
	const real a = REAL("a"), b = REAL("b");
	const std::vector<real> w = k == 0 ? legendre_weights(x) : k == 3 ? hermite_weights(x) : laguerre_weights(x);
	real s = 0;
	for (unsigned i = 0; i < n; i++)
		s += w[i] * (k == 0 ? (b - a) / 2 * F((b - a) / 2 * x[i] + (a + b) / 2) : k == 2 ? thv_exp(-a) * F(x[i] + a) - thv_exp(-b) * F(x[i] + b) : F(x[i]));
	const real r = k == 0 ? integral_legendre(F, a, b, x) : k == 1 ? integral_laguerre(F, x) : k == 2 ? integral_laguerre(F, a, b, x) : integral_hermite(F, x);
	ENSURES_EQ("sum of weighted values", r, s);
	NO_ERROR();
}
CONTRACT(legendre_computed) {
	IEEE();
	BOUNDED("Gauss-Legendre quadrature with computed nodes, up to 6 (12) points");
	const unsigned n = (unsigned) PICK("n", 1, TIER(6, 12)), k = (unsigned) PICK("degree", 0, 23);
	REQUIRES(k < 2 * n);
	const real r = integral_legendre([=](real x) { return ipow(x, k); }, -0.75, 1, n);
	ENSURES_NEAR("exact for powers up to 2n - 1", r, (1 - ipow(-0.75, k + 1)) / (k + 1), 1E-8);
	NO_ERROR();
}
