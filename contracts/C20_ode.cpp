#include "thvlib.h"
// Initial value problems: the right hand side is an uninterpreted function (any function at all) of time and state.
static vec2 G(real t, const vec2& x) { return vec2({thv_fn3("f", t, x[0], x[1]), thv_fn3("g", t, x[0], x[1])}); }
static real G1(real t, real x) { return thv_fn2("f", t, x); }
#define PROBLEM() const vec2 x = sym_vec<2>("x"); const real t = REAL("t"), h = REAL("h");
#define SAME(label, a, b) do { const vec2 a_ = (a), b_ = (b); ENSURES_EQ(label, a_[0], b_[0]); ENSURES_EQ(label, a_[1], b_[1]); } while (0)
// Runge-Kutta method of a given tableau with up to four stages
static vec2 tableau(const vec2& x, real t, real h, unsigned s, const real c[4], const real A[4][4], const real b[4]) {
	real k[4][2];
	for (unsigned i = 0; i < s; i++) {
		real y[2];
		for (unsigned j = 0; j < 2; j++) {
			y[j] = x[j];
			for (unsigned l = 0; l < i; l++) y[j] += h * A[i][l] * k[l][j];
		}
		k[i][0] = thv_fn3("f", t + c[i] * h, y[0], y[1]);
		k[i][1] = thv_fn3("g", t + c[i] * h, y[0], y[1]);
	}
	vec2 r;
	for (unsigned j = 0; j < 2; j++) {
		r[j] = x[j];
		for (unsigned l = 0; l < s; l++) r[j] += h * b[l] * k[l][j];
	}
	return r;
}
static vec2 spec_euler(const vec2& x, real t, real h) {
	const real c[4] = {0}, A[4][4] = {{0}}, b[4] = {1};
	return tableau(x, t, h, 1, c, A, b);
}
static vec2 spec_mid(const vec2& x, real t, real h) {
	const real c[4] = {0, 0.5}, A[4][4] = {{0}, {0.5}}, b[4] = {0, 1};
	return tableau(x, t, h, 2, c, A, b);
}
static vec2 spec_heun(const vec2& x, real t, real h) {
	const real c[4] = {0, 1}, A[4][4] = {{0}, {1}}, b[4] = {0.5, 0.5};
	return tableau(x, t, h, 2, c, A, b);
}
static vec2 spec_rk4(const vec2& x, real t, real h) {
	const real c[4] = {0, 0.5, 0.5, 1}, A[4][4] = {{0}, {0.5}, {0, 0.5}, {0, 0, 1}}, s = 6, b[4] = {1 / s, 2 / s, 2 / s, 1 / s};
	return tableau(x, t, h, 4, c, A, b);
}
static vec2 spec_k38(const vec2& x, real t, real h) {
	const real u = 1, th = 3, c[4] = {0, u / th, 2 / th, 1}, A[4][4] = {{0}, {u / th}, {-u / th, 1}, {1, -1, 1}}, b[4] = {0.125, 0.375, 0.375, 0.125};
	return tableau(x, t, h, 4, c, A, b);
}
CONTRACT(euler_step) { PROBLEM() SAME("Euler", ode::step_euler(G, x, t, h), spec_euler(x, t, h)); }
CONTRACT(midpoint_step) { PROBLEM() SAME("midpoint", ode::step_midpoint(G, x, t, h), spec_mid(x, t, h)); }
CONTRACT(rk2_step) { PROBLEM() SAME("Runge-Kutta of order 2", ode::step_rk2(G, x, t, h), spec_mid(x, t, h)); }
CONTRACT(heun_step) { PROBLEM() SAME("Heun", ode::step_heun(G, x, t, h), spec_heun(x, t, h)); }
CONTRACT(rk4_step) { PROBLEM() SAME("Runge-Kutta of order 4", ode::step_rk4(G, x, t, h), spec_rk4(x, t, h)); }
CONTRACT(k38_step) { PROBLEM() SAME("Kutta's 3/8 rule", ode::step_k38(G, x, t, h), spec_k38(x, t, h)); }
CONTRACT(adams_steps) {
	PROBLEM()
	const vec2 y = sym_vec<2>("y"), z = sym_vec<2>("z");
	vec2 r2, r3;
	for (unsigned j = 0; j < 2; j++) {
		r2[j] = y[j] + h * (3 * G(t + h, y)[j] - G(t, x)[j]) / 2;
		r3[j] = z[j] + h * (23 * G(t + 2 * h, z)[j] - 16 * G(t + h, y)[j] + 5 * G(t, x)[j]) / 12;
	}
	SAME("Adams-Bashforth of order 2", ode::step_adams2(G, x, t, y, t + h, h), r2);
	SAME("Adams-Bashforth of order 3", ode::step_adams3(G, x, t, y, t + h, z, t + 2 * h, h), r3);
}
// order of accuracy, independent of the tableau: exact Taylor polynomial for linear equations with polynomial forcing
template<typename S> static void order(S step, unsigned n) {
	const real l = REAL("lambda"), x = REAL("x"), h = REAL("h"), t = REAL("t");
	real s = 0, z = 1;
	for (unsigned k = 0; k <= n; k++) { s += z; z *= l * h / (k + 1); }
	ENSURES_EQ("powers of the step up to the order", step([=](real, real y) { return l * y; }, x, t, h), x * s);
	real c[4], p = x;
	for (unsigned k = 0; k < 4; k++) c[k] = REAL("c");
	real a = 1, b = 1;
	for (unsigned k = 0; k < n; k++) { a *= t; b *= t + h; p += c[k] * (b - a) / (k + 1); }
	ENSURES_EQ("integrals of polynomials", step([=](real u, real) { real r = 0, q = 1; for (unsigned k = 0; k < n; k++) { r += c[k] * q; q *= u; } return r; }, x, t, h), p);
}
#define FN template<typename F> real operator()(F f, real x, real t, real h) const
struct Euler { FN { return ode::step_euler(f, x, t, h); } };
struct Mid { FN { return ode::step_midpoint(f, x, t, h); } };
struct Heun { FN { return ode::step_heun(f, x, t, h); } };
struct Rk2 { FN { return ode::step_rk2(f, x, t, h); } };
struct Rk4 { FN { return ode::step_rk4(f, x, t, h); } };
struct K38 { FN { return ode::step_k38(f, x, t, h); } };
CONTRACT(order_one) { order(Euler(), 1); }
CONTRACT(order_two) {
	const unsigned k = (unsigned) PICK("method", 0, 2);
	if (k == 0) order(Mid(), 2);
	if (k == 1) order(Heun(), 2);
	if (k == 2) order(Rk2(), 2);
}
CONTRACT(order_four) {
	if (PICK("method", 0, 1)) order(Rk4(), 4);
	else order(K38(), 4);
}
CONTRACT(order_adams) {
	const unsigned n = (unsigned) PICK("steps", 2, 3);
	const real t = REAL("t"), h = REAL("h");
	real c[4];
	for (unsigned k = 0; k < 4; k++) c[k] = REAL("c");
	const auto x = [=](real u) { real r = 0; for (unsigned k = 0; k <= n; k++) r = r * u + c[k]; return r; };
	const auto f = [=](real u, real) { real r = 0; for (unsigned k = 0; k < n; k++) r = r * u + (n - k) * c[k]; return r; };
	if (n == 2) ENSURES_EQ("exact for parabolas", ode::step_adams2(f, x(t), t, x(t + h), t + h, h), x(t + 2 * h));
	if (n == 3) ENSURES_EQ("exact for cubics", ode::step_adams3(f, x(t), t, x(t + h), t + h, x(t + 2 * h), t + 2 * h, h), x(t + 3 * h));
}
// solvers: times, number of steps, shorter last step
static unsigned steps_of(real& t0, real& tf, real& h, real& last) {
	const unsigned n = PICK_OR("steps", 0, TIER(9, 20), 16), cut = (unsigned) PICK("shorter last step", 0, 1);
	t0 = REAL("t0"); h = REAL("h"); last = 0;
	REQUIRES(h > 1E-6);
	if (cut) { last = REAL("last"); REQUIRES(last > 1E-9 && last < h - 1E-9); }
	tf = t0 + n * h + last;
	return n;
}
#define SOLVER(name, call, spec) CONTRACT(name) { \
	BOUNDED("fixed step solvers: up to 9 (20) and 16 whole steps and a shorter one"); \
	real t0, tf, h, last; \
	const unsigned n = steps_of(t0, tf, h, last), m = n + (last > 0 ? 1 : 0); \
	const vec2 x0 = sym_vec<2>("x"); \
	const auto s = call; \
	ENSURES("number of points", s.t.size() == m + 1 && s.x.size() == m + 1); \
	vec2 x = x0; \
	for (unsigned i = 0; i <= m; i++) { \
		ENSURES_EQ("time", s.t[i], i == m ? tf : t0 + i * h); \
		SAME("state", s.x[i], x); \
		x = spec(x, t0 + i * h, i < n ? h : last); \
	} \
	NO_ERROR(); }
SOLVER(euler_solver, ode::solve_euler(G, x0, t0, tf, h), spec_euler)
SOLVER(midpoint_solver, ode::solve_midpoint(G, x0, t0, tf, h), spec_mid)
SOLVER(heun_solver, ode::solve_heun(G, x0, t0, tf, h), spec_heun)
SOLVER(rk2_solver, ode::solve_rk2(G, x0, t0, tf, h), spec_mid)
SOLVER(rk4_solver, ode::solve_rk4(G, x0, t0, tf, h), spec_rk4)
SOLVER(k38_solver, ode::solve_k38(G, x0, t0, tf, h), spec_k38)
// many steps: given step, linear equations with any forcing, any initial state
static vec2 L(real t, const vec2& x) { return vec2({x[1] + t, t * t - x[0] / 2}); }
static vec2 linear_tableau(const vec2& x, real t, real h, unsigned s, const real c[4], const real A[4][4], const real b[4]) {
	vec2 k[4], r = x;
	for (unsigned i = 0; i < s; i++) { vec2 y = x; for (unsigned l = 0; l < i; l++) for (unsigned j = 0; j < 2; j++) y[j] += h * A[i][l] * k[l][j]; k[i] = L(t + c[i] * h, y); }
	for (unsigned j = 0; j < 2; j++) for (unsigned l = 0; l < s; l++) r[j] += h * b[l] * k[l][j];
	return r;
}
CONTRACT(many_steps) {
	BOUNDED("17, 33, 65 steps (the methods of order 1 and 2 also 100) of 1/8 and possibly a shorter one, linear equations");
	const unsigned n = PICK_OR("steps", 17, 17, 33, 65, 100), k = (unsigned) PICK("method", 0, 5), cut = (unsigned) PICK("shorter last step", 0, 1), m = n + cut;
	REQUIRES(k < 4 || n < 100);
	const vec2 x0 = sym_vec<2>("x"); const real t0 = -3, h = 0.125, last = 0.0625, tf = t0 + n * h + (cut ? last : 0);
	const auto s = k == 0 ? ode::solve_euler(L, x0, t0, tf, h) : k == 1 ? ode::solve_midpoint(L, x0, t0, tf, h) : k == 2 ? ode::solve_rk2(L, x0, t0, tf, h) :
		k == 3 ? ode::solve_heun(L, x0, t0, tf, h) : k == 4 ? ode::solve_rk4(L, x0, t0, tf, h) : ode::solve_k38(L, x0, t0, tf, h);
	ENSURES("number of points", s.t.size() == m + 1 && s.x.size() == m + 1);
	const real u = 1, six = 6, th = 3; const unsigned st = k == 0 ? 1 : k < 4 ? 2 : 4;
	const real c[3][4] = {{0, k == 3 ? 1.0 : 0.5}, {0, 0.5, 0.5, 1}, {0, u / th, 2 / th, 1}}, A[3][4][4] = {{{0}, {k == 3 ? 1.0 : 0.5}}, {{0}, {0.5}, {0, 0.5}, {0, 0, 1}}, {{0}, {u / th}, {-u / th, 1}, {1, -1, 1}}};
	const real b[3][4] = {{k == 0 ? 1.0 : k == 3 ? 0.5 : 0, k == 3 ? 0.5 : 1.0}, {1 / six, 2 / six, 2 / six, 1 / six}, {0.125, 0.375, 0.375, 0.125}};
	const unsigned tab = k < 4 ? 0 : k - 3; vec2 x = x0;
	for (unsigned i = 0; i <= m; i++) {
		ENSURES_EQ("time", s.t[i], i == m ? tf : t0 + i * h); SAME("state", s.x[i], x);
		x = linear_tableau(x, t0 + i * h, i < n ? h : last, st, c[tab], A[tab], b[tab]);
	}
	NO_ERROR();
}
CONTRACT(scalar_solver) {
	BOUNDED("fixed step solvers: up to 9 (20) and 16 whole steps and a shorter one");
	real t0, tf, h, last;
	const unsigned n = steps_of(t0, tf, h, last), m = n + (last > 0 ? 1 : 0);
	real x = REAL("x");
	const auto s = ode::solve_rk4(G1, x, t0, tf, h);
	ENSURES("number of points", s.t.size() == m + 1 && s.x.size() == m + 1);
	for (unsigned i = 0; i <= m; i++) {
		ENSURES_EQ("time", s.t[i], i == m ? tf : t0 + i * h);
		ENSURES_EQ("state", s.x[i], x);
		const real d = i < n ? h : last, t = t0 + i * h, k1 = G1(t, x), k2 = G1(t + d / 2, x + d / 2 * k1), k3 = G1(t + d / 2, x + d / 2 * k2), k4 = G1(t + d, x + d * k3);
		x += d * (k1 + 2 * k2 + 2 * k3 + k4) / 6;
	}
	NO_ERROR();
}
CONTRACT(dynamic_solver) {
	BOUNDED("fixed step solvers: up to 9 (20) and 16 whole steps and a shorter one, 3 equations");
	real t0, tf, h, last;
	const unsigned n = steps_of(t0, tf, h, last), m = n + (last > 0 ? 1 : 0);
	vec<real> x = sym_dvec("x", 3);
	const auto f = [](real t, const vec<real>& y) { vec<real> r(3); r[0] = thv_fn3("f", t, y[0], y[1]); r[1] = thv_fn3("g", t, y[1], y[2]); r[2] = thv_fn3("h", t, y[2], y[0]); return r; };
	const auto s = ode::solve_euler(f, x, t0, tf, h);
	ENSURES("number of points", s.t.size() == m + 1 && s.x.size() == m + 1);
	for (unsigned i = 0; i <= m; i++) {
		ENSURES_EQ("time", s.t[i], i == m ? tf : t0 + i * h);
		const vec<real> k = f(t0 + i * h, x);
		for (unsigned j = 0; j < 3; j++) { ENSURES_EQ("state", s.x[i][j], x[j]); x[j] += k[j] * (i < n ? h : last); }
	}
	NO_ERROR();
}
CONTRACT(default_steps) {
	BOUNDED("default step of the fixed step solvers over one to three steps");
	const vec2 x0 = sym_vec<2>("x");
	const real t0 = REAL("t0");
	const unsigned n = (unsigned) PICK("steps", 1, 5);
	vec2 a = x0, b = x0, c = x0, d = x0, e = x0;
	for (unsigned i = 0; i < n; i++) {
		const real t = t0 + i * 0.0001;
		a = spec_euler(a, t, 0.0001); b = spec_mid(b, t, 0.0001); c = spec_heun(c, t, 0.0001);
		d = spec_rk4(d, t0 + i * 0.01, 0.01); e = spec_k38(e, t, 0.0001);
	}
	const real tf = t0 + n * 0.0001;
	SAME("Euler", ode::solve_euler(G, x0, t0, tf).x[n], a);
	SAME("midpoint", ode::solve_midpoint(G, x0, t0, tf).x[n], b);
	SAME("Runge-Kutta 2", ode::solve_rk2(G, x0, t0, tf).x[n], b);
	SAME("Heun", ode::solve_heun(G, x0, t0, tf).x[n], c);
	SAME("Runge-Kutta 4", ode::solve_rk4(G, x0, t0, t0 + n * 0.01).x[n], d);
	SAME("3/8 rule", ode::solve_k38(G, x0, t0, tf).x[n], e);
}
CONTRACT(wrong_interval) {
	const vec2 x0 = sym_vec<2>("x");
	const real t0 = REAL("t0"), tf = REAL("tf"), h = REAL("h");
	REQUIRES(tf < t0 || h <= 0);
	const auto s = ode::solve_rk4(G, x0, t0, tf, h);
	ENSURES("one time", s.t.size() == 1);
	ENSURES_NAN("NaN", s.t[0]);
	SOME_ERROR();
}
