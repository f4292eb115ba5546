#include "thvlib.h"
// Sampling by transformation and rejection, Monte Carlo integrals: for any generator (arbitrary 64-bit outputs) and any function.
static uint64_t draw[240];
static unsigned next_draw = 0;
static uint64_t any_draw(uint64_t, std::vector<uint64_t>&) { return draw[next_draw++]; }
#define DRAWS(n) for (unsigned di = 0; di < (n); di++) draw[di] = thv_u64("g", 0, ~uint64_t(0)); next_draw = 0; PRNG g(any_draw, 0);
static real unit(unsigned i) { return (real) (draw[i] % STATISTICS_RAND_PREC) / (real) STATISTICS_RAND_PREC; }
static real between(real a, real b, unsigned i) { return a + (b - a) * unit(i); }
static real F(real x) { return thv_fn1("f", x); }
static real G(real x) { return thv_fn1("density", x); }
static real H(real x) { return thv_fn1("inverse", x); }
static real D(real x, const vec<real>& theta) { return thv_fn2("pdf", x, theta[0]); }
// Gaussian samples
CONTRACT(box_muller) {
	DRAWS(8)
	const real m = REAL("mean"), s = REAL("sigma"), m2 = REAL("mean"), s2 = REAL("sigma");
	const real u = unit(0), v = unit(1), r = thv_sqrt(-2 * thv_ln(1 - u));
	const real x = rand_gaussian_boxmuller(m, s, g), y = rand_gaussian_boxmuller(m2, s2, g);
	ENSURES_EQ("first sample", x, m + s * r * thv_cos(2 * PI * v));
	ENSURES_EQ("second sample", y, m2 + s2 * r * thv_sin(2 * PI * v));
	ENSURES("numbers used", next_draw == 2);
	for (unsigned i = 2; i < 8; i += 2) {
		const real q = thv_sqrt(-2 * thv_ln(1 - unit(i)));
		ENSURES_EQ("later samples", rand_gaussian_boxmuller(m, s, g), m + s * q * thv_cos(2 * PI * unit(i + 1)));
		ENSURES_EQ("later samples", rand_gaussian_boxmuller(m, s2, g), m + s2 * q * thv_sin(2 * PI * unit(i + 1)));
		ENSURES("numbers used", next_draw == i + 2);
	}
	NO_ERROR();
}
CONTRACT(polar_sequence) {
	BOUNDED("6 samples, no point out of the circle");
	DRAWS(6)
	const real m = REAL("mean"), s = REAL("sigma");
	for (unsigned i = 0; i < 6; i += 2) {
		const real x = 2 * unit(i) - 1, y = 2 * unit(i + 1) - 1, q = x * x + y * y; REQUIRES(q < 1 && q > 1E-9);
		const real r = thv_sqrt(-2 * thv_ln(q) / q);
		ENSURES_EQ("sample", rand_gaussian_polar(m, s, g), m + s * r * x);
		ENSURES_EQ("sample", rand_gaussian_polar(m, s, g), m + s * r * y);
		ENSURES("numbers used", next_draw == i + 2);
	}
}
CONTRACT(polar) {
	BOUNDED("at most one point out of the unit circle");
	DRAWS(6)
	const real m = REAL("mean"), s = REAL("sigma"), m2 = REAL("mean"), s2 = REAL("sigma");
	const int kind = (int) PICK("form", 0, 2), skip = (int) PICK("rejected points", 0, 1);
	const real x0 = 2 * unit(0) - 1, y0 = 2 * unit(1) - 1, x1 = 2 * unit(2) - 1, y1 = 2 * unit(3) - 1;
	const real q0 = x0 * x0 + y0 * y0, q1 = x1 * x1 + y1 * y1;
	if (skip) REQUIRES((q0 >= 1 || q0 == 0) && q1 < 1 && q1 > 1E-9);
	else REQUIRES(q0 < 1 && q0 > 1E-9);
	const real x = skip ? x1 : x0, y = skip ? y1 : y0, q = skip ? q1 : q0, r = thv_sqrt(-2 * thv_ln(q) / q);
	const std::vector<real> a = {m, s}, b = {m2, s2};
	const real f = kind == 0 ? rand_gaussian_polar(m, s, g) : kind == 1 ? rand_gaussian(m, s, g) : rand_gaussian(a, g);
	const real e = kind == 0 ? rand_gaussian_polar(m2, s2, g) : kind == 1 ? rand_gaussian(m2, s2, g) : rand_gaussian(b, g);
	ENSURES_EQ("first sample", f, m + s * r * x);
	ENSURES_EQ("second sample", e, m2 + s2 * r * y);
	ENSURES("numbers used", next_draw == (skip ? 4u : 2u));
	NO_ERROR();
}
CONTRACT(central_limit) {
	BOUNDED("12 numbers, and 1 to 8, 16, 33, 100 numbers");
	DRAWS(112)
	const real m = REAL("mean"), s = REAL("sigma");
	const unsigned n = PICK_OR("N", 1, 8, 16, 33, 100);
	real a = 0, b = 0;
	for (unsigned i = 0; i < 12; i++) a += 2 * unit(i) - 1;
	for (unsigned i = 0; i < n; i++) b += 2 * unit(12 + i) - 1;
	// the variance of the mean of N uniform numbers in [-1, 1] is 1 / (3 N)
	ENSURES_EQ("fixed", rand_gaussian_clt(m, s, g), m + s * a / 12 * thv_sqrt(36));
	ENSURES_EQ("variable", rand_gaussian_clt(m, s, g, n), m + s * b / n * thv_sqrt(3 * n));
	NO_ERROR();
}
// Rejection
CONTRACT(try_and_catch) {
	BOUNDED("1 to 3 tries");
	const unsigned n = (unsigned) PICK("tries", 1, 3);
	DRAWS(8)
	const real x1 = REAL("x1"), x2 = REAL("x2"), y1 = REAL("y1"), y2 = REAL("y2"), t = REAL("theta");
	const vec<real> theta = {t};
	const real r = rand_trycatch(D, theta, x1, x2, y1, y2, g, n);
	for (unsigned i = 0; i < n; i++) {
		const real x = between(x1, x2, 2 * i), y = between(y1, y2, 2 * i + 1);
		if (y <= thv_fn2("pdf", x, t)) {
			ENSURES_EQ("first point under the function", r, x);
			NO_ERROR();
			return;
		}
	}
	ENSURES_NAN("no point under the function", r);
	SOME_ERROR();
}
CONTRACT(rejection) {
	BOUNDED("0 to 3 tries");
	const unsigned n = (unsigned) PICK("tries", 0, 3);
	DRAWS(8)
	const real t = REAL("theta");
	const real r = rand_rejectsamp(D, {t}, G, H, g, n);
	for (unsigned i = 0; i < n; i++) {
		const real x = H(unit(2 * i)), u = unit(2 * i + 1);
		if (u * G(x) < thv_fn2("pdf", x, t)) {
			ENSURES_EQ("first accepted point", r, x);
			NO_ERROR();
			return;
		}
	}
	ENSURES_NAN("no accepted point", r);
	SOME_ERROR();
}
CONTRACT(exponential_domain) {
	DRAWS(1)
	ENSURES_NAN("NaN", PICK("wrapper", 0, 1) ? rand_exponential(std::vector<real>{0}, g) : rand_exponential(0, g));
	SOME_ERROR();
}
CONTRACT(dice_domain) {
	DRAWS(1)
	ENSURES_NAN("NaN", PICK("wrapper", 0, 1) ? rand_diceroll(std::vector<real>{-1}, g) : rand_diceroll(0u, g));
	SOME_ERROR();
}
CONTRACT(parameters) {
	BOUNDED("parameter vectors of size 0 to 3");
	const unsigned n = (unsigned) PICK("size", 0, 3), k = (unsigned) PICK("sampler", 0, 7);
	DRAWS(3)
	if (n == (k == 1 || k == 3 || k == 4 ? 1u : 2u)) return;
	const std::vector<real> t = sym_stdvec("theta", n);
	const real r = k == 0 ? rand_uniform(t, g) : k == 1 ? rand_diceroll(t, g) : k == 2 ? rand_gaussian(t, g) : k == 3 ? rand_exponential(t, g) :
		k == 4 ? rand_rayleigh(t, g) : k == 5 ? rand_cauchy(t, g) : k == 6 ? rand_pareto(t, g) : rand_laplace(t, g);
	ENSURES_NAN("NaN", r);
	SOME_ERROR();
}
// Samplers
static real any_sampler(const std::vector<real>& theta, PRNG& g) { return theta[0] + theta[1] * unit(next_draw) + 0 * (real) (g() % 2); }
CONTRACT(sampler) {
	BOUNDED("up to 3 samples at a time");
	const real a = REAL("a"), b = REAL("b");
	DRAWS(8)
	pdf_sampler s(any_sampler, {a, b}, g);
	real z;
	ENSURES_EQ("next", s.next(), a + b * unit(0));
	ENSURES_EQ("call", s(), a + b * unit(1));
	s >> z;
	ENSURES_EQ("stream", z, a + b * unit(2));
	std::vector<real> v(3, 7.0);
	s.fill(v, 2);
	ENSURES_EQ("fill", v[0], a + b * unit(3));
	ENSURES_EQ("fill", v[1], a + b * unit(4));
	ENSURES_EQ("fill changes N elements", v[2], 7);
	s.fill(v);
	for (unsigned i = 0; i < 3; i++) ENSURES_EQ("fill", v[i], a + b * unit(5 + i));
}
CONTRACT(samplers) {
	const unsigned k = (unsigned) PICK("distribution", 0, 6);
	const real p = REAL("p"), q = REAL("q");
	REQUIRES(p > 0.01 && q > 0.01);
	DRAWS(4)
	const real u = unit(0), v = unit(1), x = 2 * u - 1, y = 2 * v - 1, c = x * x + y * y;
	if (k == 1) REQUIRES(c < 1 && c > 1E-9);
	if (k == 3) REQUIRES(thv_cos(PI * (u - 0.5)) > 1E-3);
	pdf_sampler s = k == 0 ? pdf_sampler::uniform(p, q, g) : k == 1 ? pdf_sampler::gaussian(p, q, g) : k == 2 ? pdf_sampler::exponential(p, g) :
		k == 3 ? pdf_sampler::cauchy(p, q, g) : k == 4 ? pdf_sampler::rayleigh(p, g) : k == 5 ? pdf_sampler::pareto(p, q, g) : pdf_sampler::laplace(p, q, g);
	const real r = s();
	if (k == 0) ENSURES_EQ("uniform", r, p + (q - p) * u);
	if (k == 1) ENSURES_EQ("gaussian", r, p + q * x * thv_sqrt(-2 * thv_ln(c) / c));
	if (k == 2) ENSURES_EQ("exponential", r, -thv_ln(1 - u) / p);
	if (k == 3) ENSURES_EQ("cauchy", r, p + q * tan(PI * (u - 0.5)));
	if (k == 4) ENSURES_EQ("rayleigh", r, p * thv_sqrt(-2 * thv_ln(1 - u)));
	if (k == 5) ENSURES_EQ("pareto", r, p * thv_exp(-thv_ln(1 - u) / q));
	if (k == 6) ENSURES_EQ("laplace", r, p - q * (draw[1] % 2 ? -1 : 1) * thv_ln(1 - u));
	NO_ERROR();
}
CONTRACT(metropolis_steps) {
	BOUNDED("0 to 3 steps");
	const unsigned n = (unsigned) PICK("steps", 0, 3), own = (unsigned) PICK("generator", 0, 1);
	DRAWS(8)
	const real a = REAL("a"), b = REAL("b"), x0 = REAL("x0");
	pdf_sampler s(any_sampler, {a, b}, g);
	const real r = own ? metropolis(F, s, x0, n) : metropolis(F, s, x0, g, n);
	real x = x0;
	for (unsigned i = 0; i < n; i++) {
		const real y = x + a + b * unit(2 * i);
		if (unit(2 * i + 1) * F(x) <= F(y)) x = y;
	}
	ENSURES_EQ("chain", r, x);
	ENSURES("numbers used", next_draw == 2 * n);
}
// Integrals
#define POINTS(n) BOUNDED("1 to 8, 16, 33, 100 points"); const unsigned n = PICK_OR("points", 1, 8, 16, 33, 100); const real a = REAL("a"), b = REAL("b");
CONTRACT(crude) {
	POINTS(n)
	DRAWS(100)
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += F(between(a, b, i));
	ENSURES_EQ("mean by length", integral_crude(F, a, b, g, n), s * (b - a) / n);
	ENSURES("numbers used", next_draw == n);
}
static real F2(vec2 v) { return thv_fn2("f", v[0], v[1]); }
static real F2s(real x, real y) { return thv_fn2("f", x, y); }
CONTRACT(crude_multi) {
	POINTS(n)
	const real c = REAL("c"), d = REAL("d");
	DRAWS(200)
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += F2s(between(a, b, 2 * i), between(c, d, 2 * i + 1));
	const vec<vec2, 2> e = {vec2{a, b}, vec2{c, d}};
	ENSURES_EQ("mean by volume", integral_crude<2>(F2, e, g, n), s * (b - a) * (d - c) / n);
}
CONTRACT(importance) {
	BOUNDED("1 to 8, 16, 33, 100 points");
	NODIV0();
	const unsigned n = PICK_OR("points", 1, 8, 16, 33, 100);
	DRAWS(100)
	real s = 0;
	for (unsigned i = 0; i < n; i++) { const real z = H(unit(i)); s += F(z) / G(z); }
	ENSURES_EQ("mean", integral_impsamp(F, G, H, g, n), s / n);
}
CONTRACT(hit_or_miss) {
	BOUNDED("1 to 3 points");
	const unsigned n = (unsigned) PICK("points", 1, 3);
	const real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d");
	DRAWS(6)
	unsigned k = 0;
	const unsigned form = (unsigned) PICK("form", 0, 1);
	for (unsigned i = 0; i < n; i++) {
		const real x = between(a, b, 2 * i), y = form ? between(0, d, 2 * i + 1) : between(c, d, 2 * i + 1);
		if (form) { REQUIRES(F(x) != y); if (F(x) > y) k++; }
		else if (F(x) >= y) k++;
	}
	if (form) ENSURES_EQ("area under the function", integral_hom(F, a, b, d, g, n), (b - a) * d * k / n);
	else ENSURES_EQ("area under the function, from c", integral_hom(F, a, b, c, d, g, n), (b - a) * (c + (d - c) * k / n));
}
CONTRACT(hit_or_miss_2d) {
	BOUNDED("1 to 3 points");
	const unsigned n = (unsigned) PICK("points", 1, 3);
	const real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d"), m = REAL("max");
	DRAWS(9)
	unsigned k = 0;
	for (unsigned i = 0; i < n; i++) {
		const real f = F2s(between(a, b, 3 * i), between(c, d, 3 * i + 1)), z = between(0, m, 3 * i + 2);
		REQUIRES(f != z);
		if (f > z) k++;
	}
	ENSURES_EQ("volume under the function", integral_hom_2d(F2s, a, b, c, d, m, g, n), (b - a) * (d - c) * m * k / n);
}
// Quasi-random sequences
static real part(real x) { return fract(x); }
CONTRACT(weyl) {
	BOUNDED("elements up to 40, 100, 1000 for the default base; any base in (0, 1) for the first 4");
	const unsigned n = (unsigned) PICK_OR("n", 0, 40, 100, 1000);
	IEEE();
	const double phi = INVPHI, a2 = 0.7548776662466927;
	ENSURES("default base", qrand_weyl(n) == part(n * phi));
	const vec2 v = qrand_weyl2(n), w = qrand_weyl_multi<2>(n, a2);
	ENSURES("two dimensions", v[0] == part(n * a2) && v[1] == part(n * (a2 * a2)));
	ENSURES("many dimensions", w[0] == v[0] && w[1] == v[1]);
	ENSURES("in [0, 1)", v[0] >= 0 && v[0] < 1 && v[1] >= 0 && v[1] < 1);
	ENSURES("recurrence starts", qrand_weyl_recurr() == part(phi) && qrand_weyl_recurr(0, a2) == part(a2));
	ENSURES("recurrence", qrand_weyl_recurr(0.5, a2) == part(0.5 + a2));
}
CONTRACT(quasi_crude) {
	BOUNDED("1 to 8, 16, 33, 100 points");
	const unsigned n = PICK_OR("points", 1, 8, 16, 33, 100);
	const real a = REAL("a"), b = REAL("b");
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += F(a + (b - a) * qrand_weyl(i));
	ENSURES_EQ("mean by length", integral_quasi_crude(F, a, b, n), s * (b - a) / n);
}
CONTRACT(quasi_crude_multi) {
	BOUNDED("1 to 8, 16, 33, 100 points");
	const unsigned n = PICK_OR("points", 1, 8, 16, 33, 100);
	const real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d");
	real s = 0, t = 0;
	for (unsigned i = 0; i < n; i++) {
		s += F2s(a + (b - a) * qrand_weyl(i, 0.75), c + (d - c) * qrand_weyl(i, 0.3));
		t += F2s(a + (b - a) * qrand_weyl(i, 0.75), c + (d - c) * qrand_weyl(i, 0.5625));
	}
	const vec<vec2, 2> e = {vec2{a, b}, vec2{c, d}};
	ENSURES_EQ("mean by volume", integral_quasi_crude<2>(F2, e, n, vec2{0.75, 0.3}), s * (b - a) * (d - c) / n);
	ENSURES_EQ("powers of one base", integral_quasi_crude<2>(F2, e, n, 0.75), t * (b - a) * (d - c) / n);
}
CONTRACT(quasi_hit_or_miss) {
	BOUNDED("1 to 4 points");
	const unsigned n = (unsigned) PICK("points", 1, 4), form = (unsigned) PICK("form", 0, 1);
	const real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d");
	unsigned k = 0;
	for (unsigned i = 0; i < n; i++) {
		const vec2 v = qrand_weyl2(i);
		const real x = a + (b - a) * v[0], y = form ? d * v[1] : c + (d - c) * v[1];
		if (form) { REQUIRES(F(x) != y); if (F(x) > y) k++; }
		else if (F(x) >= y) k++;
	}
	if (form) ENSURES_EQ("area under the function", integral_quasi_hom(F, a, b, d, n), (b - a) * d * k / n);
	else ENSURES_EQ("area under the function, from c", integral_quasi_hom(F, a, b, c, d, n), (b - a) * (c + (d - c) * k / n));
}
CONTRACT(quasi_importance) {
	BOUNDED("1 to 8, 16, 33 points");
	NODIV0();
	const unsigned n = PICK_OR("points", 1, 8, 16, 33);
	real s = 0;
	for (unsigned i = 0; i < n; i++) { const real z = H(qrand_weyl(i + 1)); s += F(z) / G(z); }
	ENSURES_EQ("mean", integral_quasi_impsamp(F, G, H, n), s / n);
}
CONTRACT(sample_functions) {
	BOUNDED("up to 6, 16, 33, 100 samples of two variables");
	const unsigned n = (unsigned) PICK_OR("samples", 0, 6, 16, 33, 100);
	const real a = REAL("a"), b = REAL("b");
	DRAWS(200)
	std::vector<pdf_sampler> rv = {pdf_sampler::uniform(0, 1, g), pdf_sampler::uniform(a, b, g)};
	const std::vector<real> r = sample_mc([](vec<real> v) { return thv_fn2("f", v[0], v[1]); }, rv, n);
	ENSURES("size", r.size() == n);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("sample", r[i], F2s(unit(2 * i), between(a, b, 2 * i + 1)));
}
// many points: given generator outputs
static void given_draws(unsigned n, unsigned seed) { uint64_t x = seed; for (unsigned i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; draw[i] = x >> 9; } next_draw = 0; }
CONTRACT(hit_or_miss_many) {
	BOUNDED("5 to 10, 33, 60 points of given generators, piecewise linear functions");
	const unsigned n = PICK_OR("points", 5, 10, 33, 60), form = (unsigned) PICK("form", 0, 4); given_draws(200, (unsigned) PICK("seed", 1, 3)); PRNG g(any_draw, 0);
	const real a = -1, b = 3, c = 0.25, d = 2; unsigned k = 0;
	const auto f = [](real x) { return x < 0.5 ? 1 + x / 2 : 1.625 - x / 4; }; const auto f2 = [](real x, real y) { return 1 + x / 4 - y / 3; };
	for (unsigned i = 0; i < n; i++) {
		const vec2 v = qrand_weyl2(i);
		if (form == 0) k += f(between(a, b, 2 * i)) > between(0, d, 2 * i + 1);
		if (form == 1) k += f(between(a, b, 2 * i)) >= between(c, d, 2 * i + 1);
		if (form == 2) k += f2(between(a, b, 3 * i), between(c, d, 3 * i + 1)) > between(0, d, 3 * i + 2);
		if (form == 3) k += f(a + (b - a) * v[0]) > d * v[1];
		if (form == 4) k += f(a + (b - a) * v[0]) >= c + (d - c) * v[1];
	}
	if (form == 0) ENSURES_EQ("area", integral_hom(f, a, b, d, g, n), (b - a) * d * k / n);
	if (form == 1) ENSURES_EQ("area", integral_hom(f, a, b, c, d, g, n), (b - a) * (c + (d - c) * k / n));
	if (form == 2) ENSURES_EQ("volume", integral_hom_2d(f2, a, b, c, d, d, g, n), (b - a) * (d - c) * d * k / n);
	if (form == 3) ENSURES_EQ("area", integral_quasi_hom(f, a, b, d, n), (b - a) * d * k / n);
	if (form == 4) ENSURES_EQ("area", integral_quasi_hom(f, a, b, c, d, n), (b - a) * (c + (d - c) * k / n));
}
CONTRACT(rejection_many) {
	BOUNDED("4 to 12, 50 tries of given generators");
	const unsigned n = PICK_OR("tries", 4, 12, 50), kind = (unsigned) PICK("kind", 0, 2); given_draws(200, (unsigned) PICK("seed", 1, 4)); PRNG g(any_draw, 0);
	const real t = 0.125; const vec<real> theta = {t};
	const auto pdf = [](real x, const vec<real>& th) { return th[0] * (1 + x / 8); };
	const real r = kind == 0 ? rand_trycatch(pdf, theta, -1, 3, 0, 1, g, n) : kind == 1 ? rand_rejectsamp(pdf, theta, [](real) { return 1.0; }, [](real u) { return 2 * u; }, g, n) : 0;
	if (kind == 2) {
		pdf_sampler s(any_sampler, {-0.5, 1.0}, g); const real q = metropolis([](real x) { return x < 0 ? 1 / (1 - x) : 1 / (1 + x); }, s, 0.25, g, n); real x = 0.25;
		for (unsigned i = 0; i < n; i++) { const real y = x - 0.5 + unit(2 * i), fx = 1 / (1 + (x < 0 ? -x : x)), fy = 1 / (1 + (y < 0 ? -y : y)); if (unit(2 * i + 1) * fx <= fy) x = y; }
		ENSURES_EQ("chain", q, x); ENSURES("numbers used", next_draw == 2 * n); return;
	}
	for (unsigned i = 0; i < n; i++) {
		const real x = kind == 0 ? between(-1, 3, 2 * i) : 2 * unit(2 * i), y = unit(2 * i + 1), p = t * (1 + x / 8);
		if (y < p) { ENSURES_EQ("first accepted point", r, x); ENSURES("numbers used", next_draw == 2 * i + 2); NO_ERROR(); return; }
	}
	ENSURES_NAN("no accepted point", r); SOME_ERROR();
}
CONTRACT(weyl_base) {
	IEEE();
	BOUNDED("quasi-random integrals in 1 to 3 dimensions with the default base, 3 points");
	const vec<vec2, 2> e = {vec2{0, 1}, vec2{0, 1}}; const vec<vec2, 3> e3 = {vec2{0, 1}, vec2{0, 1}, vec2{0, 1}};
	const real a2 = 0.7548776662466927, a3 = 0.8191725133961645; real s = 0, s3 = 0;
	for (unsigned i = 0; i < 3; i++) { s += part(i * a2) + 2 * part(i * (a2 * a2)); s3 += part(i * a3) + 2 * part(i * (a3 * a3)) + 4 * part(i * (a3 * a3 * a3)); }
	ENSURES_NEAR("two dimensions", integral_quasi_crude<2>([](vec2 v) { return v[0] + 2 * v[1]; }, e, 3), s / 3, 1E-6);
	ENSURES_NEAR("three dimensions", integral_quasi_crude<3>([](vec3 v) { return v[0] + 2 * v[1] + 4 * v[2]; }, e3, 3), s3 / 3, 1E-6);
}
