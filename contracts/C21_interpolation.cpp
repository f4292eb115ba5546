#include "thvlib.h"
// Interpolation: the interpolating object passes through the data, and is the one the name promises.
static real F(real x) { return thv_fn1("f", x); }
CONTRACT(linear) {
	const real a = REAL("a"), b = REAL("b"), t = REAL("t"), v = REAL("v"), c = REAL("c"), d = REAL("d");
	ENSURES_EQ("lerp", lerp(a, b, t), (1 - t) * a + t * b);
	REQUIRES(a != b);
	ENSURES_EQ("inverse", invlerp(a, b, v) * (b - a), v - a);
	ENSURES_EQ("lerp inverts", lerp(a, b, invlerp(a, b, v)), v);
	ENSURES_EQ("remap", (remap(a, b, c, d, v) - c) * (b - a), (d - c) * (v - a));
	NO_ERROR();
}
template<unsigned N> static void linear_vector() {
	const vec<real, N> P = sym_vec<N>("P"), Q = sym_vec<N>("Q");
	const real t = REAL("t");
	const vec<real, N> R = lerp(P, Q, t);
	for (unsigned i = 0; i < N; i++) ENSURES_EQ("lerp", R[i], (1 - t) * P[i] + t * Q[i]);
	real n2 = 0;
	for (unsigned i = 0; i < N; i++) n2 += R[i] * R[i];
	REQUIRES(n2 > 1E-6);
	const vec<real, N> U = nlerp(P, Q, t);
	for (unsigned i = 0; i < N; i++) ENSURES_EQ("nlerp", U[i] * thv_sqrt(n2), R[i]);
	NO_ERROR();
}
CONTRACT(linear_vectors) {
	BOUNDED("vectors of dimension 2, 3, 4");
	const int k = (int) PICK("dimension", 2, 4);
	if (k == 2) linear_vector<2>(); else if (k == 3) linear_vector<3>(); else linear_vector<4>();
}
CONTRACT(remap_vectors) {
	BOUNDED("vectors of dimension 3");
	const real a = REAL("a"), b = REAL("b"), v = REAL("v");
	const vec3 P = sym_vec<3>("P"), Q = sym_vec<3>("Q");
	REQUIRES(a != b);
	// the same value in each component: one parameter fits all
	const vec3 A = {a, a, a}, B = {b, b, b};
	const vec3 R = remap(A, B, P, Q, v);
	for (unsigned i = 0; i < 3; i++) ENSURES_EQ("remap", (R[i] - P[i]) * (b - a), (Q[i] - P[i]) * (v - a));
	NO_ERROR();
}
CONTRACT(remap_inconsistent) {
	const real a = REAL("a"), b = REAL("b"), v = REAL("v"), e = REAL("e");
	const vec2 P = sym_vec<2>("P"), Q = sym_vec<2>("Q");
	REQUIRES(a != b && e != 0 && e + b != a);
	REQUIRES(v != a);
	const vec2 A = {a, a}, B = {b, b + e};
	const vec2 R = remap(A, B, P, Q, v);
	ENSURES_NAN("NaN", R[0]);
	ENSURES_NAN("NaN", R[1]);
	SOME_ERROR();
}
template<unsigned N> static void slerp_vector() {
	const vec<real, N> P = sym_vec<N>("P"), Q = sym_vec<N>("Q");
	const real t = REAL("t");
	real pp = 0, qq = 0, pq = 0;
	for (unsigned i = 0; i < N; i++) { pp += P[i] * P[i]; qq += Q[i] * Q[i]; pq += P[i] * Q[i]; }
	REQUIRES(pp > 1E-6 && qq > 1E-6 && pq * pq < 0.999 * pp * qq);
	const real w = acos(pq / (thv_sqrt(pp) * thv_sqrt(qq)));
	const real s = thv_sin(w);
	REQUIRES(s > 0.01);
	const vec<real, N> R = slerp(P, Q, t), R0 = slerp(P, Q, 0), R1 = slerp(P, Q, 1);
	for (unsigned i = 0; i < N; i++) {
		ENSURES_EQ("slerp", R[i] * s, P[i] * thv_sin((1 - t) * w) + Q[i] * thv_sin(t * w));
		ENSURES_EQ("first extreme", R0[i], P[i]);
		ENSURES_EQ("last extreme", R1[i], Q[i]);
	}
}
CONTRACT(spherical) {
	BOUNDED("vectors of dimension 2 and 3");
	NODIV0();
	if (PICK("dimension", 2, 3) == 2) slerp_vector<2>(); else slerp_vector<3>();
}
CONTRACT(spherical_domain) {
	const vec3 P = sym_vec<3>("P"), Z = {0, 0, 0};
	const real t = REAL("t");
	REQUIRES(P[0] > 1);
	const vec3 R = PICK("first", 0, 1) ? slerp(P, Z, t) : slerp(Z, P, t);
	for (unsigned i = 0; i < 3; i++) ENSURES_NAN("NaN", R[i]);
	SOME_ERROR();
}
CONTRACT(dynamic_curves_domain) {
	BOUNDED("vectors of dynamic size 1 to 3");
	const unsigned n = (unsigned) PICK("n", 1, 3), m = (unsigned) PICK("points", 1, 3);
	vec<real> P = sym_dvec("P", n), Z(n);
	const real t = REAL("t");
	REQUIRES(P[0] > 1);
	errno = 0;
	const vec<real> R = PICK("first", 0, 1) ? slerp<0>(P, Z, t) : slerp<0>(Z, P, t);
	ENSURES("size", R.size() == n); for (unsigned i = 0; i < n; i++) ENSURES_NAN("NaN", R[i]);
	SOME_ERROR();
	REQUIRES(m < 2 || t < 0 || t > 1);
	errno = 0;
	const vec<real> B = bezier<0>(std::vector<vec<real>>(m, P), t);
	ENSURES("size", B.size() == n); for (unsigned i = 0; i < n; i++) ENSURES_NAN("NaN", B[i]);
	SOME_ERROR();
}
CONTRACT(smooth_steps) {
	const real a = REAL("a"), b = REAL("b"), x = REAL("x");
	REQUIRES(a < b);
	const real u = (x - a) / (b - a), s = smoothstep(a, b, x), r = smootherstep(a, b, x);
	if (x <= a) { ENSURES_EQ("before", s, 0); ENSURES_EQ("before", r, 0); }
	else if (x >= b) { ENSURES_EQ("after", s, 1); ENSURES_EQ("after", r, 1); }
	else {
		ENSURES_EQ("smoothstep", s, 3 * u * u - 2 * u * u * u);
		ENSURES_EQ("smootherstep", r, 10 * u * u * u - 15 * u * u * u * u + 6 * u * u * u * u * u);
	}
	NO_ERROR();
}
CONTRACT(smooth_steps_domain) {
	const real a = REAL("a"), x = REAL("x");
	ENSURES_NAN("NaN", PICK("function", 0, 1) ? smoothstep(a, a, x) : smootherstep(a, a, x));
	SOME_ERROR();
}
static real ipow(real x, unsigned k) { real p = 1; for (unsigned i = 0; i < k; i++) p *= x; return p; }
static real binom(unsigned n, unsigned k) { real r = 1; for (unsigned i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
template<unsigned N> static real bernstein(const std::vector<vec<real, N>>& p, unsigned c, real t) {
	const unsigned n = p.size() - 1;
	real r = 0;
	for (unsigned k = 0; k <= n; k++) r += binom(n, k) * ipow(t, k) * ipow(1 - t, n - k) * p[k][c];
	return r;
}
template<unsigned N> static std::vector<vec<real, N>> points(unsigned n) {
	std::vector<vec<real, N>> p(n);
	for (unsigned i = 0; i < n; i++) p[i] = sym_vec<N>("p");
	return p;
}
CONTRACT(bezier_curves) {
	BOUNDED("control points in dimension 2 and 3; generic curves of 2 to 10 points");
	const real t = REAL("t");
	const std::vector<vec3> q = points<3>(4), h = {q[0], q[1], q[2]};
	const vec3 a = quadratic_bezier(q[0], q[1], q[2], t), b = cubic_bezier(q[0], q[1], q[2], q[3], t);
	for (unsigned i = 0; i < 3; i++) {
		ENSURES_EQ("quadratic", a[i], bernstein<3>(h, i, t));
		ENSURES_EQ("cubic", b[i], bernstein<3>(q, i, t));
	}
	REQUIRES(t >= 0 && t <= 1);
	const std::vector<vec2> p = points<2>((unsigned) PICK("points", 2, 10));
	const vec2 c = bezier(p, t);
	for (unsigned i = 0; i < 2; i++) ENSURES_EQ("generic", c[i], bernstein<2>(p, i, t));
	NO_ERROR();
}
CONTRACT(bezier_domain) {
	const unsigned n = (unsigned) PICK("points", 0, 4);
	const std::vector<vec2> p = points<2>(n);
	const real t = REAL("t");
	REQUIRES(n < 2 || t < 0 || t > 1);
	const vec2 c = bezier(p, t);
	ENSURES_NAN("NaN", c[0]);
	ENSURES_NAN("NaN", c[1]);
	SOME_ERROR();
}
// natural cubic splines: interpolation, two continuous derivatives, null second derivative at the extremes
static real second(const spline_node& s, real X) { return 2 * s.c + 6 * s.d * (X - s.x); }
static void natural_spline(const std::vector<spline_node>& s, const std::vector<real>& x, const std::vector<real>& y) {
	const unsigned n = x.size() - 1;
	ENSURES("one node for each interval", s.size() == n);
	if (s.size() != n) return;
	for (unsigned i = 0; i < n; i++) {
		ENSURES_EQ("interpolates the lower point", s[i](x[i]), y[i]);
		ENSURES_EQ("interpolates the upper point", s[i](x[i + 1]), y[i + 1]);
		if (i + 1 < n) {
			ENSURES_EQ("continuous derivative", s[i].deriv(x[i + 1]), s[i + 1].deriv(x[i + 1]));
			ENSURES_EQ("continuous second derivative", second(s[i], x[i + 1]), second(s[i + 1], x[i + 1]));
		}
	}
	ENSURES_EQ("natural at the start", second(s[0], x[0]), 0);
	ENSURES_EQ("natural at the end", second(s[n - 1], x[n]), 0);
}
static std::vector<real> increasing(unsigned n) {
	std::vector<real> x(n);
	x[0] = REAL("x");
	for (unsigned i = 1; i < n; i++) { const real d = REAL("d"); REQUIRES(d > 0); x[i] = x[i - 1] + d; }
	return x;
}
CONTRACT(splines) {
	BOUNDED("2 to 5 points at any increasing abscissas");
	const unsigned n = (unsigned) PICK("points", 2, TIER(5, 6));
	const std::vector<real> x = increasing(n), y = sym_stdvec("y", n);
	natural_spline(cubic_splines(x, y), x, y);
	NO_ERROR();
}
CONTRACT(splines_points) {
	BOUNDED("2 to 5 points at any increasing abscissas");
	const unsigned n = (unsigned) PICK("points", 2, TIER(5, 6));
	const std::vector<real> x = increasing(n), y = sym_stdvec("y", n);
	std::vector<vec2> p(n);
	for (unsigned i = 0; i < n; i++) p[i] = {x[i], y[i]};
	natural_spline(cubic_splines(p), x, y);
	NO_ERROR();
}
CONTRACT(splines_many) {
	BOUNDED("6 to 12, 20, 33 points at fixed, not equidistant abscissas, any ordinates");
	const unsigned n = (unsigned) PICK_OR("points", 6, 12, 20, 33);
	std::vector<real> x(n), y = sym_stdvec("y", n);
	std::vector<vec2> p(n);
	for (unsigned i = 0; i < n; i++) { x[i] = (real) (i * i + i) - 3; p[i] = {x[i], y[i]}; }
	natural_spline(cubic_splines(x, y), x, y);
	natural_spline(cubic_splines(p), x, y);
	NO_ERROR();
}
CONTRACT(spline_evaluation) {
	BOUNDED("1 to 5, 9, 17, 40 points at any increasing abscissas, evaluation anywhere");
	const unsigned n = (unsigned) PICK_OR("points", 1, 5, 9, 17, 40), form = (unsigned) PICK("form", 0, 1);
	const std::vector<real> x = increasing(n);
	const real X = REAL("X");
	// any spline: the coefficients are not restricted to the natural ones
	spline s = form ? spline(std::vector<real>{0, 1, 2}, std::vector<real>{0, 1, 2}) : spline(std::vector<vec2>{{0, 1}, {2, 3}});
	s.nodes.resize(n);
	for (unsigned i = 0; i < n; i++) s.nodes[i] = spline_node(x[i], REAL("a"), REAL("b"), REAL("c"), REAL("d"));
	unsigned k = 0;
	for (unsigned i = 1; i < n; i++) if (X >= x[i]) k = i;
	const spline_node& e = s.nodes[k];
	const real h = X - x[k];
	spline cpy(std::vector<real>{0, 1}, std::vector<real>{0, 1});
	cpy = s;
	ENSURES_EQ("value", cpy(X), e.a + e.b * h + e.c * h * h + e.d * h * h * h);
	ENSURES_EQ("derivative", cpy.deriv(X), e.b + 2 * e.c * h + 3 * e.d * h * h);
	unsigned count = 0;
	for (auto& node : s) { (void) node; count++; }
	ENSURES("iteration", count == n);
	NO_ERROR();
}
CONTRACT(spline_construction) {
	const std::vector<real> x = increasing(3), y = sym_stdvec("y", 3);
	const std::vector<vec2> p = {{x[0], y[0]}, {x[1], y[1]}, {x[2], y[2]}};
	const spline s(x, y), r(p);
	natural_spline(s.nodes, x, y);
	natural_spline(r.nodes, x, y);
	for (unsigned i = 0; i < 3; i++) { ENSURES_EQ("value at the points", s(x[i]), y[i]); ENSURES_EQ("value at the points", r(x[i]), y[i]); }
}
CONTRACT(splines_domain) {
	const unsigned k = (unsigned) PICK("case", 0, 4);
	std::vector<spline_node> s;
	if (k == 0) s = cubic_splines(std::vector<vec2>{});
	if (k == 1) s = cubic_splines(std::vector<vec2>{{1, 2}});
	if (k == 2) s = cubic_splines(std::vector<real>{1}, std::vector<real>{1});
	if (k == 3) s = cubic_splines(std::vector<real>{1, 2, 3}, std::vector<real>{1, 2});
	if (k == 4) s = cubic_splines(std::vector<real>{1, 2}, std::vector<real>{1, 2, 3});
	ENSURES("one node", s.size() == 1);
	ENSURES_NAN("NaN", s[0](1));
	SOME_ERROR();
}
// Polynomial interpolation
static std::vector<vec2> distinct(unsigned n) {
	std::vector<vec2> p(n);
	for (unsigned i = 0; i < n; i++) {
		p[i] = {REAL("x"), REAL("y")};
		for (unsigned j = 0; j < i; j++) { const real g = p[i][0] - p[j][0]; REQUIRES(g > 1E-6 || g < -1E-6); }
	}
	return p;
}
CONTRACT(lagrange) {
	BOUNDED("1 to 4 (5) points at any distinct abscissas");
	const std::vector<vec2> p = distinct((unsigned) PICK("points", 1, TIER(4, 5)));
	const polynomial<real> L = lagrange_polynomial(p);
	ENSURES("degree below the number of points", L.size() <= p.size());
	for (unsigned i = 0; i < p.size(); i++) ENSURES_EQ("interpolates", L(p[i][0]), p[i][1]);
	NO_ERROR();
}
CONTRACT(lagrange_many) {
	BOUNDED("6 to 12, 16, 20 points at fixed abscissas");
	const unsigned n = (unsigned) PICK_OR("points", 6, 12, 16, 20);
	std::vector<vec2> p(n);
	for (unsigned i = 0; i < n; i++) p[i] = {(real) (i * i) - 7 * (i % 2), REAL("y")};
	const polynomial<real> L = lagrange_polynomial(p);
	ENSURES("degree below the number of points", L.size() <= p.size());
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("interpolates", L(p[i][0]), p[i][1]);
	NO_ERROR();
}
CONTRACT(lagrange_domain) {
	BOUNDED("2 to 7 points");
	const unsigned n = (unsigned) PICK("points", 2, 7), i = (unsigned) PICK("i", 0, 5), j = (unsigned) PICK("j", 1, 6);
	if (i >= j || j >= n) return;
	std::vector<vec2> p = points<2>(n);
	p[j][0] = p[i][0];
	ENSURES_NAN("NaN", lagrange_polynomial(p)(1.0));
	SOME_ERROR();
}
CONTRACT(lagrange_empty) {
	ENSURES_NAN("NaN", lagrange_polynomial(std::vector<vec2>())(1.0));
	SOME_ERROR();
}
CONTRACT(chebyshev) {
	BOUNDED("1 to 12, 20, 33, 40 nodes");
	const unsigned n = (unsigned) PICK_OR("nodes", 1, 12, 20, 33, 40);
	const real a = REAL("a"), b = REAL("b");
	const std::vector<real> v = chebyshev_nodes(a, b, n);
	const vec<real> w = chebyshev_nodes<vec<real>>(a, b, n);
	ENSURES("size", v.size() == n && w.size() == n);
	for (unsigned i = 0; i < n; i++) {
		ENSURES_EQ("node", v[i], (a + b) / 2 + (b - a) / 2 * thv_cos((2 * i + 1) * PI / (2 * n)));
		ENSURES_EQ("node", w[i], v[i]);
	}
}
template<typename G> static void samples(const G& g, const std::vector<real>& x, real (*f)(real)) {
	const polynomial<real> L = g(f);
	ENSURES("degree", L.size() <= x.size());
	for (unsigned i = 0; i < x.size(); i++) ENSURES_EQ("interpolates the function", L(x[i]), f(x[i]));
	NO_ERROR();
}
CONTRACT(grid) {
	BOUNDED("orders 0 to 3 over any interval");
	const unsigned n = (unsigned) PICK("order", 0, 3);
	const real a = REAL("a"), h = REAL("h"), b = a + n * h;
	REQUIRES(h > 1E-3);
	std::vector<real> x(n + 1);
	for (unsigned i = 0; i <= n; i++) x[i] = a + i * h;
	samples([=](real (*f)(real)) { return interpolate_grid(f, a, b, n); }, x, F);
}
CONTRACT(grid_fixed) {
	BOUNDED("orders 0 to 12 over [-1, 4]");
	const unsigned n = (unsigned) PICK("order", 0, 12);
	std::vector<real> x(n + 1);
	for (unsigned i = 0; i <= n; i++) x[i] = n ? -1 + i * 5 / (real) n : -1;
	samples([=](real (*f)(real)) { return interpolate_grid(f, -1, 4, n); }, x, F);
}
CONTRACT(grid_chebyshev) {
	BOUNDED("orders 0 to 4 over [-1, 3]");
	const unsigned n = (unsigned) PICK("order", 0, TIER(4, 5));
	std::vector<real> x(n + 1);
	for (unsigned i = 0; i <= n; i++) x[i] = 1 + 2 * thv_cos((2 * i + 1) * PI / (2 * (n + 1)));
	samples([=](real (*f)(real)) { return interpolate_chebyshev(f, -1, 3, n); }, x, F);
}
