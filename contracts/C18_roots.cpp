#include "thvlib.h"
// Root finding and extrema.
static real F(real x) { return thv_fn1("f", x); }
static real D(real x) { return thv_fn1("Df", x); }
static real D2(real x) { return thv_fn1("D2f", x); }
// a function of either sign on the sides of its only root
struct Step {
	real m, l, r;
	real operator()(real x) const { return x < m ? l : x > m ? r : 0; }
};
static Step sym_step(real a, real b) {
	static const real V[][2] = { {-1, 1}, {1, -1}, {-3, 1}, {-1, 5} };
	const unsigned k = (unsigned) PICK("values", 0, 3);
	Step s = { REAL("root"), V[k][0], V[k][1] };
	REQUIRES(s.m > a && s.m < b);
	return s;
}
CONTRACT(bisection) {
	BOUNDED("bisection: up to 5 (7) halvings");
	const unsigned n = (unsigned) PICK("iterations", 0, TIER(5, 7));
	const real a = REAL("a"), b = REAL("b"), tol = REAL("tolerance");
	REQUIRES(a < b && tol > 0);
	const Step f = sym_step(a, b);
	const real r = root_bisect(f, a, b, tol, n);
	real w = b - a;
	for (unsigned i = 0; i < n; i++) w /= 2;
	if (w <= 2 * tol) { ENSURES("within the tolerance of the root", r - f.m <= tol && f.m - r <= tol); NO_ERROR(); }
	else { ENSURES_NAN("NaN", r); SOME_ERROR(); }
}
CONTRACT(bisection_any) {
	BOUNDED("bisection: up to 3 (5) halvings");
	const unsigned n = (unsigned) PICK("iterations", 0, TIER(3, 5));
	const real a = REAL("a"), b = REAL("b"), tol = REAL("tolerance");
	REQUIRES(a < b && tol > 0);
	real lo = a, hi = b;
	REQUIRES(F(a) * F(b) < 0);
	const auto f = [=](real x) { ENSURES("evaluated in the interval only", x >= a && x <= b); return F(x); };
	const real r = root_bisect(f, a, b, tol, n);
	for (unsigned i = 0; i < n && hi - lo > 2 * tol; i++) {
		const real c = (lo + hi) / 2;
		if (F(c) * F(lo) > 0) lo = c; else hi = c;
	}
	if (hi - lo <= 2 * tol) { ENSURES("in an interval where the sign changes", r >= lo && r <= hi); NO_ERROR(); }
	else { ENSURES_NAN("NaN", r); SOME_ERROR(); }
}
CONTRACT(bisection_default) {
	const real a = REAL("a"), w = REAL("w");
	REQUIRES(w > 0 && w < 7E-8);
	const Step f = sym_step(a, a + w);
	const real r = root_bisect(f, a, a + w);
	ENSURES("within the tolerance of the root", r - f.m <= 1E-8 && f.m - r <= 1E-8);
	NO_ERROR();
}
CONTRACT(bisection_domain) {
	const unsigned k = (unsigned) PICK("function", 0, 1);
	const real a = REAL("a"), b = REAL("b");
	REQUIRES(a > b || F(a) * F(b) >= 0);
	ENSURES_NAN("NaN", k ? root_bisect(F, a, b) : root_itp(F, a, b));
	SOME_ERROR();
}
CONTRACT(itp) {
	BOUNDED("ITP method: intervals of 1 to 9 (17) tolerances from -2 and 0.5, every root");
	static const real Q[] = { 1, 2, 3, 4, 5.5, 8, 9, 11, 17 };
	const real q = Q[PICK("width", 0, TIER(6, 8))];
	const unsigned n0 = (unsigned) PICK("n0", 0, 2), kk = (unsigned) PICK("k1", 0, 1);
	const real a = PICK("a", 0, 1) ? -2 : 0.5, b = a + q;
	const Step f = sym_step(a, b);
	const auto g = [=](real x) { ENSURES("evaluated in the interval only", x >= a && x <= b); return f(x); };
	const real r = n0 == 1 && kk == 0 ? root_itp(g, a, b, 1) : root_itp(g, a, b, 1, n0, kk ? 0.05 : 0.0);
	ENSURES("within the tolerance of the root", r - f.m <= 1 && f.m - r <= 1);
	NO_ERROR();
}
// Methods with derivatives: iterations of the stated formula until |f| is within the tolerance
template<typename S> static void iterate(real r, S step, real x, real tol, unsigned n) {
	unsigned i = 0;
	while (true) {
		if (i > n) { ENSURES_NAN("NaN if there is no convergence", r); SOME_ERROR(); return; }
		const real y = F(x);
		if (y == 0) break;
		x = step(x, y);
		i++;
		if (i <= n && y <= tol && y >= -tol) break;
	}
	ENSURES_EQ("iteration of the method", r, x);
	NO_ERROR();
}
// many iterations: the iterates are given numbers
CONTRACT(iterations_many) {
	IEEE();
	BOUNDED("all methods on x^3 - 2 x - 5, exp-like and steep functions from 4 guesses, 0 to 12 iterations and 100");
	const unsigned k = (unsigned) PICK("method", 0, 5), n = PICK_OR("iterations", 0, 12, 100), which = (unsigned) PICK("function", 0, 1);
	static const real G[] = { 3.0, 2.5, 4.0, 8.0 }; const real x = G[PICK("guess", 0, 3)], tol = 1E-6;
	const std::function<real(real)> f = [=](real t) { return which ? t * t - 3 : t * t * t - 2 * t - 5; }, d = [=](real t) { return which ? 2 * t : 3 * t * t - 2; }, z = [=](real t) { return which ? 2.0 : 6 * t; };
	errno = 0;
	const real r = k == 0 ? root_newton(f, d, x, tol, n) : k == 1 ? root_halley(f, d, z, x, tol, n) : k == 2 ? root_chebyshev(f, d, z, x, tol, n) :
		k == 3 ? root_ostrowski(f, d, x, tol, n) : k == 4 ? root_jarrat(f, d, x, tol, n) : root_steffensen(f, x, tol, n);
	if (errno == 0) { const real e = r - (which ? 1.7320508075688772 : 2.0945514815423265); ENSURES("close to the root", e < 1E-6 && e > -1E-6); }
	else ENSURES_NAN("NaN without convergence", r);
	if (n == 100 && k < 5) NO_ERROR();
}
CONTRACT(bisection_many) {
	IEEE();
	BOUNDED("bisection and ITP of given functions over 4 intervals, tolerances down to 1e-12");
	static const real A[] = { 0, -2, 1.5, 1.7 }, B[] = { 2, 4, 1000, 1.75 }, T[] = { 1E-2, 1E-5, 1E-8, 1E-12 };
	const unsigned i = (unsigned) PICK("interval", 0, 3), k = (unsigned) PICK("method", 0, 1); const real a = A[i], b = B[i], tol = T[PICK("tolerance", 0, 3)];
	const auto f = [](real t) { return t < 0 ? -3.0 : t * t - 3; };
	errno = 0; const real r = k ? root_itp(f, a, b, tol) : root_bisect(f, a, b, tol), e = r - 1.7320508075688772;
	NO_ERROR(); ENSURES("within the tolerance", e <= 1.01 * tol && -e <= 1.01 * tol);
}
CONTRACT(root_intervals_many) {
	BOUNDED("find_root_intervals: 10, 33, 100 and 200 steps of a piecewise function with 3 roots");
	static const unsigned N[] = { 10, 33, 100, 200 }; const unsigned n = N[PICK("steps", 0, 3)]; const real a = -2, b = 8, h = (b - a) / n;
	const auto f = [](real x) { return (x + 1.03125) * (x - 2.40625) * (x - 7.96875); };
	const std::vector<vec2> v = find_root_intervals(f, a, b, n);
	unsigned k = 0;
	for (unsigned i = 0; i < n; i++) if (f(a + i * h) * f(a + (i + 1) * h) <= 0) { ENSURES("interval is found", k < v.size()); ENSURES_EQ("lower extreme", v[k][0], a + i * h); ENSURES_EQ("upper extreme", v[k][1], a + (i + 1) * h); k++; }
	ENSURES("no other interval", v.size() == k);
}
#define METHOD(name, call, formula) CONTRACT(name) { \
	NODIV0(); BOUNDED(#name ": up to 2 (4) iterations"); \
	const unsigned n = (unsigned) PICK("iterations", 0, TIER(2, 4)); \
	const real x0 = REAL("x"), tol = REAL("tolerance"); \
	REQUIRES(tol > 0); \
	iterate(call, [](real x, real f) { return formula; }, x0, tol, n); }
METHOD(newton, root_newton(F, D, x0, tol, n), x - f / D(x))
METHOD(halley, root_halley(F, D, D2, x0, tol, n), x - 2 * f * D(x) / (2 * D(x) * D(x) - f * D2(x)))
METHOD(steffensen, root_steffensen(F, x0, tol, n), x - f * f / (F(x + f) - f))
METHOD(chebyshev, root_chebyshev(F, D, D2, x0, tol, n), x - f / D(x) - f * f * D2(x) / (2 * D(x) * D(x) * D(x)))
METHOD(ostrowski, root_ostrowski(F, D, x0, tol, n), x - f / D(x) - F(x - f / D(x)) / D(x) * f / (f - 2 * F(x - f / D(x))))
METHOD(jarrat, root_jarrat(F, D, x0, tol, n), x - f / D(x) / 2 + f / (D(x) - 3 * D(x - f / D(x) * 2 / 3)))
static dual dual_f(dual x) { return dual(F(x.Re()), D(x.Re()) * x.Dual()); }
static dual2 dual2_f(dual2 x) {
	return dual2(F(x.Re()), D(x.Re()) * x.Dual1(), D2(x.Re()) * x.Dual1() * x.Dual1() + D(x.Re()) * x.Dual2());
}
METHOD(newton_dual, root_newton(dual_f, x0, tol, n), x - f / D(x))
METHOD(halley_dual, root_halley(dual2_f, x0, tol, n), x - 2 * f * D(x) / (2 * D(x) * D(x) - f * D2(x)))
METHOD(chebyshev_dual, root_chebyshev(dual2_f, x0, tol, n), x - f / D(x) - f * f * D2(x) / (2 * D(x) * D(x) * D(x)))
// on a quadratic function every result is a root up to the tolerance of the last residual
CONTRACT(linear_functions) {
	const unsigned k = (unsigned) PICK("method", 0, 6);
	const real m = REAL("m"), q = REAL("q"), x = REAL("x");
	REQUIRES(q > 1E-3);
	const std::function<real(real)> f = [=](real t) { return q * (t - m); }, d = [=](real) { return q; }, z = [](real) { return 0.0; };
	const real r = k == 0 ? root_newton(f, d, x) : k == 1 ? root_halley(f, d, z, x) : k == 2 ? root_steffensen(f, x) :
		k == 3 ? root_chebyshev(f, d, z, x) : k == 4 ? root_ostrowski(f, d, x) : k == 5 ? root_jarrat(f, d, x) : root_newton(f, d, x, 1E-12, 5);
	ENSURES_EQ("root of a linear function from any guess", r, m);
	NO_ERROR();
}
CONTRACT(newton_complex) {
	const real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d"), x = REAL("x"), y = REAL("y");
	REQUIRES(c * c + d * d > 1E-3);
	const std::function<complex<>(complex<>)> f = [=](complex<> z) { return complex<>(c, d) * (z - complex<>(a, b)); }, df = [=](complex<>) { return complex<>(c, d); };
	const complex<> r = root_newton(f, df, complex<>(x, y));
	ENSURES_EQ("real part", r.Re(), a);
	ENSURES_EQ("imaginary part", r.Im(), b);
	NO_ERROR();
}
// Intervals and roots
CONTRACT(root_intervals) {
	BOUNDED("find_root_intervals: up to 3 (5) steps, and the default");
	const unsigned n = (unsigned) PICK("steps", 1, TIER(3, 5));
	const real a = REAL("a"), b = REAL("b"), h = (b - a) / n;
	REQUIRES(a < b);
	const std::vector<vec2> v = find_root_intervals(F, a, b, n);
	unsigned k = 0;
	for (unsigned i = 0; i < n; i++)
		if (F(a + i * h) * F(a + (i + 1) * h) <= 0) {
			ENSURES("interval is found", k < v.size());
			ENSURES_EQ("lower extreme", v[k][0], a + i * h);
			ENSURES_EQ("upper extreme", v[k][1], a + (i + 1) * h);
			k++;
		}
	ENSURES("no other interval", v.size() == k);
}
CONTRACT(all_roots) {
	BOUNDED("roots: two roots in different steps, up to 4 steps");
	const unsigned n = (unsigned) PICK("steps", 2, 4), i = (unsigned) PICK("first", 0, 2), j = (unsigned) PICK("second", 1, 3);
	REQUIRES(i < j && j < n);
	const real p = REAL("p"), q = REAL("q");
	REQUIRES(p >= i && p < i + 1 && q > j && q <= j + 1);
	const std::vector<real> r = roots([=](real x) { return x < p ? 1.0 : x > q ? 1.0 : x == p || x == q ? 0.0 : -1.0; }, 0, n, 0.3, n);
	ENSURES("two roots", r.size() == 2);
	ENSURES("within the tolerance", r[0] - p <= 0.3 && p - r[0] <= 0.3 && r[1] - q <= 0.3 && q - r[1] <= 0.3);
	NO_ERROR();
}
CONTRACT(no_root_steps) {
	const std::vector<real> r = roots(F, REAL("a"), REAL("b"), 1E-3, 0);
	ENSURES("one element", r.size() == 1);
	ENSURES_NAN("NaN", r[0]);
	SOME_ERROR();
}
CONTRACT(polynomial_roots) {
	BOUNDED("roots of polynomials: integer roots between -3 and 3, degrees 2 and 3");
	IEEE();
	const int a = (int) PICK("a", -3, 3), b = (int) PICK("b", -3, 3), c = (int) PICK("c", TIER(2, 0), 4), s = (int) PICK("scale", 0, 1);
	REQUIRES(a < b && c != a && c != b);
	polynomial<real> p = c == 4 ? polynomial<real>({(real) a * b, (real) -(a + b), 1.0}) :
		polynomial<real>({(real) -a * b * c, (real) a * b + a * c + b * c, (real) -(a + b + c), 1.0});
	if (s) p = p * -2.5;
	const std::vector<real> r = roots(p, 1E-8, 97u);
	const unsigned n = c == 4 ? 2 : 3;
	ENSURES("number of roots", r.size() == n);
	const int lo = c == 4 ? a : (c < a ? c : a), hi = c == 4 ? b : (c > b ? c : b), mid = a + b + c - lo - hi;
	ENSURES("first", r[0] > lo - 1E-7 && r[0] < lo + 1E-7);
	ENSURES("last", r[n - 1] > hi - 1E-7 && r[n - 1] < hi + 1E-7);
	if (n == 3) ENSURES("second", r[1] > mid - 1E-7 && r[1] < mid + 1E-7);
}
// Extrema
struct Valley {
	real m, l, r, s;
	real operator()(real x) const { return s * (x < m ? l * (m - x) : r * (x - m)); }
};
CONTRACT(golden_section) {
	BOUNDED("golden section: intervals up to 2.5 tolerances and piecewise linear functions");
	const real a = REAL("a"), w = REAL("w");
	REQUIRES(w >= 0 && w < 2.5E-8);
	const bool max = PICK("maximum", 0, 1);
	const real m = REAL("m");
	REQUIRES(m >= a && m <= a + w);
	const unsigned k = (unsigned) PICK("slopes", 0, 2);
	const Valley f = { m, k == 1 ? 5.0 : 1.0, k == 2 ? 5.0 : 1.0, max ? -1.0 : 1.0 };
	const real r = max ? maximize_goldensection(f, a, a + w) : minimize_goldensection(f, a, a + w);
	ENSURES("within the tolerance of the extremum", r - m <= 1E-8 && m - r <= 1E-8);
	NO_ERROR();
}
CONTRACT(golden_section_wide) {
	BOUNDED("golden section: extrema on a grid of 8 points in [-1, 1] and [0, 10], parabolas");
	IEEE();
	const bool max = PICK("maximum", 0, 1), wide = PICK("wide", 0, 1);
	const int i = (int) PICK("m", 0, 8);
	const real a = wide ? 0 : -1, b = wide ? 10 : 1, m = a + i * (b - a) / 8, s = max ? -1 : 1;
	const auto f = [=](real x) { return s * (x < m ? m - x : 2 * (x - m)); };
	const real r = max ? maximize_goldensection(f, a, b) : minimize_goldensection(f, a, b);
	ENSURES("within the tolerance of the extremum", r - m <= 2E-8 && m - r <= 2E-8);
	NO_ERROR();
}
CONTRACT(golden_section_domain) {
	const real a = REAL("a"), b = REAL("b");
	REQUIRES(a > b);
	ENSURES_NAN("NaN", PICK("maximum", 0, 1) ? maximize_goldensection(F, a, b) : minimize_goldensection(F, a, b));
	SOME_ERROR();
}
CONTRACT(newton_extrema) {
	const bool max = PICK("maximum", 0, 1);
	const real k = REAL("k"), m = REAL("m"), x = REAL("x");
	REQUIRES(k > 1E-3 || k < -1E-3);
	const std::function<real(real)> f = [=](real t) { return k * (t - m) * (t - m); }, d = [=](real t) { return 2 * k * (t - m); }, d2 = [=](real) { return 2 * k; };
	const real r = max ? maximize_newton(f, d, d2, x) : minimize_newton(f, d, d2, x);
	if ((k < 0) == max) { ENSURES_EQ("extremum", r, m); NO_ERROR(); }
	else { ENSURES_NAN("NaN for the opposite extremum", r); SOME_ERROR(); }
}
CONTRACT(bisection_extrema) {
	const bool max = PICK("maximum", 0, 1);
	const real a = REAL("a"), w = REAL("w"), m = REAL("m");
	const real k = PICK("sign", 0, 1) ? 2 : -3;
	REQUIRES(w > 0 && w < 7E-8 && m > a && m < a + w);
	const std::function<real(real)> f = [=](real t) { return k * (t - m) * (t - m); }, d = [=](real t) { return 2 * k * (t - m); };
	const real r = max ? maximize_bisection(f, d, a, a + w) : minimize_bisection(f, d, a, a + w);
	if ((k < 0) == max) { ENSURES("extremum", r - m <= 1E-8 && m - r <= 1E-8); NO_ERROR(); }
	else { ENSURES_NAN("NaN for the opposite extremum", r); SOME_ERROR(); }
}
