#include "thvlib.h"
namespace d = theoretica::distribution;
static real factorial(unsigned n) { real f = 1; for (unsigned i = 2; i <= n; i++) f *= i; return f; }
static real choose(unsigned n, unsigned k) { real r = 1; for (unsigned i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static real power(real x, unsigned n) { real r = 1; for (unsigned i = 0; i < n; i++) r *= x; return r; }
static vec<real> par(real a) { vec<real> v(1); v[0] = a; return v; }
static vec<real> par(real a, real b) { vec<real> v(2); v[0] = a; v[1] = b; return v; }
static real F(real x, const vec<real>& t) { return thv_fn3("f", x, t[0], t[1]); }
CONTRACT(likelihood) {
	BOUNDED("samples of up to 8, 17, 33, 100 values");
	const unsigned n = (unsigned) PICK_OR("n", 0, 8, 17, 33, 100);
	const vec<real> X = sym_dvec("x", n), t = par(REAL("t0"), REAL("t1"));
	real p = 1, s = 0;
	for (unsigned i = 0; i < n; i++) {
		REQUIRES(F(X[i], t) > 0);
		p *= F(X[i], t);
		s += thv_ln(F(X[i], t));
	}
	ENSURES_EQ("product of the densities", stats::likelihood(X, t, F), p);
	ENSURES_EQ("sum of the logarithms", stats::log_likelihood(X, t, F), s);
	NO_ERROR();
}
CONTRACT(gaussian) {
	const real x = REAL("x"), m = REAL("m"), s = REAL("s");
	REQUIRES(s > 0);
	const real r = d::gaussian(x, m, s);
	ENSURES_EQ("density", r * thv_sqrt(2 * PI) * s, thv_exp(-(x - m) * (x - m) / (2 * s * s)));
	ENSURES_EQ("parameters", d::gaussian(x, par(m, s)), r);
	NO_ERROR();
}
CONTRACT(bernoulli) {
	const uint32_t k = thv_u32("k", 0, 0xffffffffu);
	const real p = REAL("p");
	ENSURES_EQ("probability", d::bernoulli(k, p), k == 0 ? 1 - p : k == 1 ? p : 0);
	NO_ERROR();
}
CONTRACT(bernoulli_parameters) {
	BOUNDED("k up to 3");
	const unsigned k = (unsigned) PICK("k", 0, 3);
	const real p = REAL("p");
	ENSURES_EQ("probability", d::bernoulli(real(k), par(p)), k == 0 ? 1 - p : k == 1 ? p : 0);
	NO_ERROR();
}
CONTRACT(poisson) {
	BOUNDED("k up to 20 (the largest factorial), more up to 30");
	const unsigned k = (unsigned) PICK("k", 0, 30);
	const real l = REAL("lambda");
	REQUIRES(l > 0);
	ENSURES_EQ("probability", d::poisson(k, l) * factorial(k), power(l, k) * thv_exp(-l));
	ENSURES_EQ("parameters", d::poisson(real(k), par(l)), d::poisson(k, l));
	NO_ERROR();
}
CONTRACT(binomial) {
	BOUNDED("up to 20, 25, 30 trials");
	const unsigned n = (unsigned) PICK_OR("n", 0, 20, 25, 30), k = (unsigned) PICK("k", 0, 30);
	REQUIRES(k <= n);
	const real p = REAL("p");
	ENSURES_EQ("probability", d::binomial(k, n, p), choose(n, k) * power(p, k) * power(1 - p, n - k));
	ENSURES_EQ("parameters", d::binomial(real(k), par(real(n), p)), d::binomial(k, n, p));
	NO_ERROR();
}
CONTRACT(binomial_total) {
	BOUNDED("up to 20 trials");
	const unsigned n = (unsigned) PICK("n", 0, 20);
	const real p = REAL("p");
	real s = 0, m = 0;
	for (unsigned k = 0; k <= n; k++) { const real b = d::binomial(k, n, p); s += b; m += k * b; }
	ENSURES_EQ("total", s, 1);
	ENSURES_EQ("mean", m, n * p);
}
CONTRACT(multinomial) {
	BOUNDED("up to 3 categories with up to 4 counts each");
	const unsigned k = (unsigned) PICK("k", 0, 3);
	std::vector<unsigned int> x(k);
	unsigned n = 0;
	for (unsigned i = 0; i < k; i++) { x[i] = (unsigned) PICK("x", 0, 4); n += x[i]; }
	const std::vector<real> p = sym_stdvec("p", k);
	real e = factorial(n);
	for (unsigned i = 0; i < k; i++) e *= power(p[i], x[i]) / factorial(x[i]);
	ENSURES_EQ("probability", d::multinomial(x, n, k, p), e);
	NO_ERROR();
}
CONTRACT(multinomial_many) {
	BOUNDED("1 to 6 categories with up to 60 counts in total");
	const unsigned k = (unsigned) PICK("k", 1, 6), m = (unsigned) PICK("m", 0, 10);
	std::vector<unsigned int> x(k);
	unsigned n = 0;
	for (unsigned i = 0; i < k; i++) { x[i] = (m * (i + 1) + i * i) % 13; n += x[i]; }
	const std::vector<real> p = sym_stdvec("p", k);
	real e = factorial(n);
	for (unsigned i = 0; i < k; i++) e *= power(p[i], x[i]) / factorial(x[i]);
	ENSURES_EQ("probability", d::multinomial(x, n, k, p), e);
	NO_ERROR();
}
CONTRACT(multinomial_sizes) {
	BOUNDED("up to 3 categories");
	const unsigned k = (unsigned) PICK("k", 0, 3), m = (unsigned) PICK("m", 0, 3), l = (unsigned) PICK("l", 0, 3);
	REQUIRES(k != m || k != l);
	ENSURES_NAN("NaN", d::multinomial(std::vector<unsigned int>(m, 1), 3, k, sym_stdvec("p", l)));
	SOME_ERROR();
}
// gamma function of k/2 times 2^{k/2}
static real half_gamma_2(unsigned k) {
	real g = k % 2 ? thv_sqrt(2 * PI) : 2;
	for (unsigned i = k % 2 ? 1 : 2; i + 2 <= k; i += 2) g *= i;
	return g;
}
CONTRACT(chi_squared) {
	BOUNDED("up to 40 degrees of freedom");
	const unsigned k = (unsigned) PICK("k", 1, 40);
	const real x = REAL("x");
	const real a = d::chi_squared(x, k), b = d::chi_squared(x, k, special::half_gamma(k)), c = d::chi_squared(x, par(real(k)));
	ENSURES_EQ("precomputed coefficient", b, a);
	ENSURES_EQ("parameters", c, a);
	if (x < 0) ENSURES_EQ("null for negative values", a, 0);
	if (x > 0) {
		const real s = thv_sqrt(x);
		ENSURES_EQ("density", a * half_gamma_2(k) * x, power(x, k / 2) * (k % 2 ? s : 1) * thv_exp(-x / 2));
	}
	if (x == 0 && k == 2) ENSURES_EQ("at zero, 2 degrees", a, 0.5);
	if (x == 0 && k > 2) ENSURES_EQ("at zero", a, 0);
}
CONTRACT(chi_squared_none) {
	const real x = REAL("x");
	REQUIRES(x >= 0);
	ENSURES_NAN("no degrees of freedom", d::chi_squared(x, 0u));
	SOME_ERROR();
}
CONTRACT(student) {
	BOUNDED("up to 30 degrees of freedom");
	const unsigned k = (unsigned) PICK("k", 1, 30);
	const real x = REAL("x");
	const real r = d::student(x, k), a = 1 + x * x / k, s = thv_sqrt(a);
	const real g = half_gamma_2(k + 1) / half_gamma_2(k) / thv_sqrt(2);       // Gamma((k + 1) / 2) / Gamma(k / 2)
	ENSURES_EQ("density", r * thv_sqrt(k * PI) * power(a, (k + 1) / 2) * (k % 2 ? 1 : s), g);
	ENSURES_EQ("parameters", d::student(x, par(real(k))), r);
	ENSURES_EQ("even", d::student(-x, k), r);
}
CONTRACT(gamma) {
	ABSTRACT1("special5gammaEd");
	const real x = REAL("x"), a = REAL("alpha"), b = REAL("beta");
	REQUIRES(x > 0 && a > 0 && b > 0);
	const real r = d::gamma(x, a, b);
	REQUIRES(special::gamma(a) > 0);
	ENSURES_EQ("density", r * special::gamma(a), thv_exp(a * thv_ln(b)) * thv_exp((a - 1) * thv_ln(x)) * thv_exp(-b * x));
	ENSURES_EQ("parameters", d::gamma(x, par(a, b)), r);
}
CONTRACT(beta) {
	ABSTRACT1("special5gammaEd");
	const real x = REAL("x"), a = REAL("alpha"), b = REAL("beta");
	REQUIRES(x > 0 && x < 1 && a > 0 && b > 0);
	REQUIRES(special::beta(a, b) > 0);
	const real r = d::beta(x, a, b);
	ENSURES_EQ("density", r * special::beta(a, b), thv_exp((a - 1) * thv_ln(x)) * thv_exp((b - 1) * thv_ln(1 - x)));
	ENSURES_EQ("parameters", d::beta(x, par(a, b)), r);
}
CONTRACT(log_normal) {
	const real x = REAL("x"), m = REAL("m"), s = REAL("s");
	REQUIRES(x > 0 && s > 0);
	const real r = d::log_normal(x, m, s), l = thv_ln(x) - m;
	ENSURES_EQ("density", r * x * s * thv_sqrt(2 * PI), thv_exp(-l * l / (2 * s * s)));
	ENSURES_EQ("parameters", d::log_normal(x, par(m, s)), r);
	NO_ERROR();
}
CONTRACT(exponential) {
	const real x = REAL("x"), l = REAL("lambda");
	const real r = d::exponential(x, l);
	if (x < 0) ENSURES_EQ("null for negative values", r, 0);
	else ENSURES_EQ("density", r, l * thv_exp(-l * x));
	ENSURES_EQ("parameters", d::exponential(x, par(l)), r);
	NO_ERROR();
}
CONTRACT(rayleigh) {
	const real x = REAL("x"), s = REAL("s");
	REQUIRES(s > 1E-10);
	const real r = d::rayleigh(x, s);
	if (x < 0) ENSURES_EQ("null for negative values", r, 0);
	else ENSURES_EQ("density", r * s * s, x * thv_exp(-x * x / (2 * s * s)));
	ENSURES_EQ("parameters", d::rayleigh(x, par(s)), r);
	NO_ERROR();
}
CONTRACT(rayleigh_domain) {
	const real x = REAL("x"), s = REAL("s");
	REQUIRES(s <= 0 && x >= 0);
	ENSURES_NAN("NaN", d::rayleigh(x, s));
	SOME_ERROR();
}
CONTRACT(cauchy) {
	const real x = REAL("x"), m = REAL("m"), a = REAL("a");
	REQUIRES(a > 0);
	const real r = d::cauchy(x, m, a), w = d::breit_wigner(x, m, a);
	ENSURES_EQ("Cauchy density", r * PI * (a * a + (x - m) * (x - m)), a);
	ENSURES_EQ("Breit-Wigner density", w * PI * (a * a / 4 + (x - m) * (x - m)), a / 2);
	ENSURES_EQ("the Breit-Wigner is a Cauchy distribution", d::cauchy(x, m, a / 2), w);
	ENSURES_EQ("parameters", d::cauchy(x, par(m, a)), r);
	ENSURES_EQ("parameters", d::breit_wigner(x, par(m, a)), w);
	NO_ERROR();
}
CONTRACT(maxwell) {
	const real x = REAL("x"), a = REAL("a");
	REQUIRES(a > 0);
	const real r = d::maxwell(x, a);
	if (x < 0) ENSURES_EQ("null for negative values", r, 0);
	else ENSURES_EQ("density", r * thv_sqrt(PI / 2) * a * a * a, x * x * thv_exp(-x * x / (2 * a * a)));
	ENSURES_EQ("parameters", d::maxwell(x, par(a)), r);
	NO_ERROR();
}
CONTRACT(laplace) {
	const real x = REAL("x"), m = REAL("m"), b = REAL("b");
	REQUIRES(b > 0);
	const real r = d::laplace(x, m, b);
	ENSURES_EQ("density", r * 2 * b, thv_exp(-(x < m ? m - x : x - m) / b));
	ENSURES_EQ("parameters", d::laplace(x, par(m, b)), r);
	NO_ERROR();
}
CONTRACT(pareto) {
	const real x = REAL("x"), m = REAL("m"), a = REAL("a");
	REQUIRES(m > 0 && a > 0);
	const real r = d::pareto(x, m, a);
	if (x < m) ENSURES_EQ("null under the minimum", r, 0);
	else ENSURES_EQ("density", r * thv_exp((a + 1) * thv_ln(x)), a * thv_exp(a * thv_ln(m)));
	ENSURES_EQ("parameters", d::pareto(x, par(m, a)), r);
	NO_ERROR();
}
CONTRACT(pareto_domain) {
	const real x = REAL("x"), m = REAL("m"), a = REAL("a");
	REQUIRES(a <= 0);
	ENSURES_NAN("NaN", d::pareto(x, m, a));
	SOME_ERROR();
}
CONTRACT(erlang) {
	BOUNDED("k up to 20");
	const unsigned k = (unsigned) PICK("k", 1, 30);
	const real x = REAL("x"), l = REAL("lambda");
	const real r = d::erlang(x, k, l);
	if (x < 0) ENSURES_EQ("null for negative values", r, 0);
	else ENSURES_EQ("density", r * factorial(k - 1), power(l, k) * power(x, k - 1) * thv_exp(-l * x));
	ENSURES_EQ("parameters", d::erlang(x, par(real(k), l)), r);
	NO_ERROR();
}
CONTRACT(erlang_domain) {
	ENSURES_NAN("NaN", d::erlang(REAL("x"), 0u, REAL("l")));
	SOME_ERROR();
}
// Wrappers with a wrong number of parameters
CONTRACT(parameters) {
	BOUNDED("up to 4 parameters");
	const unsigned n = (unsigned) PICK("n", 0, 4), k = (unsigned) PICK("distribution", 0, 16);
	const unsigned right = (k == 1 || k == 2 || k == 4 || k == 7 || k == 9 || k == 10 || k == 13) ? 1 : 2;
	REQUIRES(n != right);
	const vec<real> t = sym_dvec("t", n);
	const real x = REAL("x");
	REQUIRES(x >= 0 && x < 100);
	const real r = k == 0 ? d::gaussian(x, t) : k == 1 ? d::bernoulli(x, t) : k == 2 ? d::poisson(x, t) : k == 3 ? d::binomial(x, t) : k == 4 ? d::chi_squared(x, t)
		: k == 5 ? d::gamma(x, t) : k == 6 ? d::beta(x, t) : k == 7 ? d::student(x, t) : k == 8 ? d::log_normal(x, t) : k == 9 ? d::exponential(x, t)
		: k == 10 ? d::rayleigh(x, t) : k == 11 ? d::cauchy(x, t) : k == 12 ? d::breit_wigner(x, t) : k == 13 ? d::maxwell(x, t) : k == 14 ? d::laplace(x, t)
		: k == 15 ? d::pareto(x, t) : d::erlang(x, t);
	ENSURES_NAN("NaN", r);
	SOME_ERROR();
}
