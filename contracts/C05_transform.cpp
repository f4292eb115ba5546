#include "thvlib.h"
using namespace theoretica::algebra;
typedef mat<real> DM;
template<typename M> static void is_rotation_block(const M& m, unsigned n) {
	// orthogonal with determinant one on the leading 3x3 block, identity elsewhere
	for (unsigned i = 0; i < n; i++)
		for (unsigned j = 0; j < n; j++) {
			real s = 0;
			for (unsigned k = 0; k < n; k++) s += m(k, i) * m(k, j);
			ENSURES_EQ("columns are orthonormal", s, i == j ? 1 : 0);
		}
	for (unsigned i = 3; i < n; i++)
		for (unsigned j = 0; j < n; j++) {
			ENSURES_EQ("identity outside", m(i, j), i == j ? 1 : 0);
			ENSURES_EQ("identity outside (columns)", m(j, i), i == j ? 1 : 0);
		}
}
template<typename M> static void det_one(const M& m) {
	ENSURES_EQ("determinant one", m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0))
		+ m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)), 1);
}
// Rodrigues: R v = v cos t + (k x v) sin t + k (k.v) (1 - cos t)
template<typename M> static void rodrigues(const M& m, real t, real kx, real ky, real kz) {
	const real k[3] = {kx, ky, kz}, c = thv_cos(t), s = thv_sin(t);
	const real v[3] = {REAL("v0"), REAL("v1"), REAL("v2")};
	const real cr[3] = {ky * v[2] - kz * v[1], kz * v[0] - kx * v[2], kx * v[1] - ky * v[0]};
	const real d = kx * v[0] + ky * v[1] + kz * v[2];
	for (unsigned i = 0; i < 3; i++)
		ENSURES_EQ("Rodrigues rotation of a vector", m(i, 0) * v[0] + m(i, 1) * v[1] + m(i, 2) * v[2], v[i] * c + cr[i] * s + k[i] * d * (1 - c));
}
// unit axis from two angles
static vec<real, 3> unit_axis(real a, real b) {
	vec<real, 3> k;
	k[0] = thv_cos(a) * thv_cos(b); k[1] = thv_sin(a) * thv_cos(b); k[2] = thv_sin(b);
	return k;
}
CONTRACT(rotation_3d_rodrigues) {
	const real t = REAL("theta");
	vec<real, 3> k = sym_vec<3>("k");
	rodrigues(rotation_3d<mat<real, 3, 3>>(t, k), t, k[0], k[1], k[2]);
	rodrigues(rotation_3d<mat<real, 4, 4>>(t, k), t, k[0], k[1], k[2]);
	rodrigues(rotation_3d<DM>(t, k, 3, 3), t, k[0], k[1], k[2]);
	NO_ERROR();
}
CONTRACT(rotation_3d_is_rotation) {
	const real t = REAL("theta");
	vec<real, 3> k = unit_axis(REAL("a"), REAL("b"));
	const auto m = rotation_3d<mat<real, 3, 3>>(t, k);
	is_rotation_block(m, 3);
	det_one(m);
}
CONTRACT(rotation_3d_is_rotation_4) {
	const real t = REAL("theta");
	vec<real, 3> k = unit_axis(REAL("a"), REAL("b"));
	is_rotation_block(rotation_3d<DM>(t, k, 4, 4), 4);
}
template<typename M> static void axis_rotations(unsigned r, unsigned c, unsigned n) {
	const real t = REAL("theta");
	const unsigned ax = (unsigned) PICK("axis", 0, 2);
	const M m = ax == 0 ? rotation_3d_xaxis<M>(t, r, c) : ax == 1 ? rotation_3d_yaxis<M>(t, r, c) : rotation_3d_zaxis<M>(t, r, c);
	rodrigues(m, t, ax == 0, ax == 1, ax == 2);
	is_rotation_block(m, n);
	det_one(m);
	NO_ERROR();
}
CONTRACT(axis_rotations_3) { axis_rotations<mat<real, 3, 3>>(0, 0, 3); }
CONTRACT(axis_rotations_4) { axis_rotations<mat<real, 4, 4>>(0, 0, 4); }
CONTRACT(axis_rotations_dyn3) { axis_rotations<DM>(3, 3, 3); }
CONTRACT(axis_rotations_dyn5) { axis_rotations<DM>(5, 5, 5); }
template<typename M> static void rot2(const M& m, real t, unsigned n) {
	const real c = thv_cos(t), s = thv_sin(t);
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++)
		ENSURES_EQ("rotation in the plane", m(i, j), i < 2 && j < 2 ? (i == j ? c : i < j ? -s : s) : i == j ? 1 : 0);
}
CONTRACT(rotation_2d_elements) {
	const real t = REAL("theta");
	rot2(rotation_2d<mat<real, 2, 2>>(t), t, 2);
	rot2(rotation_2d<mat<real, 3, 3>>(t), t, 3);
	rot2(rotation_2d<DM>(t, 2, 2), t, 2);
	rot2(rotation_2d<DM>(t, 4, 4), t, 4);
	NO_ERROR();
}
CONTRACT(rotations_compose) {
	const real a = REAL("a"), b = REAL("b");
	const mat<real, 2, 2> R = rotation_2d<mat<real, 2, 2>>(a) * rotation_2d<mat<real, 2, 2>>(b);
	const mat<real, 2, 2> S = rotation_2d<mat<real, 2, 2>>(a + b);
	for (unsigned i = 0; i < 2; i++) for (unsigned j = 0; j < 2; j++) ENSURES_EQ("rotations add up", R(i, j), S(i, j));
}
// a dynamic matrix with too few rows or too few columns
CONTRACT(too_small_2d) {
	const unsigned r = (unsigned) PICK("rows", 1, 3), c = (unsigned) PICK("cols", 1, 3);
	if (r >= 2 && c >= 2) return;
	DM m = rotation_2d<DM>(REAL("theta"), r, c);
	SOME_ERROR();
	ENSURES_NAN("NaN on the diagonal", m(0, 0));
}
CONTRACT(too_small_3d) {
	const unsigned which = (unsigned) PICK("which", 0, 3), r = (unsigned) PICK("rows", 1, 4), c = (unsigned) PICK("cols", 1, 4);
	if (r >= 3 && c >= 3) return;
	const real t = REAL("theta");
	vec<real, 3> k = sym_vec<3>("k");
	DM m = which == 0 ? rotation_3d<DM>(t, k, r, c) : which == 1 ? rotation_3d_xaxis<DM>(t, r, c) : which == 2 ? rotation_3d_yaxis<DM>(t, r, c)
		: rotation_3d_zaxis<DM>(t, r, c);
	SOME_ERROR();
	ENSURES_NAN("NaN on the diagonal", m(0, 0));
}
CONTRACT(too_small_projection) {
	const unsigned which = (unsigned) PICK("which", 0, 2), r = (unsigned) PICK("rows", 2, 5), c = (unsigned) PICK("cols", 2, 5);
	if (r >= 4 && c >= 4) return;
	const real a = REAL("a"), b = REAL("b"), cc = REAL("c"), d = REAL("d"), e = REAL("e"), f = REAL("f");
	errno = 0;
	DM m = which == 0 ? perspective<DM>(a, b, cc, d, e, f, r, c) : which == 1 ? ortho<DM>(a, b, cc, d, e, f, r, c) : perspective_fov<DM>(a, b, cc, d, r, c);
	SOME_ERROR();
	ENSURES_NAN("NaN on the diagonal", m(0, 0));
}
CONTRACT(too_small_translation) {
	const unsigned n = (unsigned) PICK("n", 1, 3), r = (unsigned) PICK("rows", 1, 6), c = (unsigned) PICK("cols", 1, 6);
	if (r == n + 1) return;
	DM m = translation<DM>(sym_dvec("v", n), r, c);
	SOME_ERROR();
	ENSURES_NAN("NaN on the diagonal", m(0, 0));
}
CONTRACT(axis_too_short) {
	vec<real> k = sym_dvec("k", (unsigned) PICK("n", 0, 2));
	mat<real, 3, 3> m = rotation_3d<mat<real, 3, 3>>(REAL("theta"), k);
	SOME_ERROR();
	ENSURES_NAN("NaN on the diagonal", m(1, 1));
}
// ---- translations: homogeneous point + vector
template<typename M, typename V> static void translates(const M& m, const V& v, unsigned n) {
	real p[40];
	for (unsigned i = 0; i < n; i++) p[i] = i + 1 == n ? 1 : REAL("p");
	for (unsigned i = 0; i < n; i++) {
		real s = 0;
		for (unsigned j = 0; j < n; j++) s += m(i, j) * p[j];
		ENSURES_EQ("translated point", s, i + 1 == n ? 1 : p[i] + v[i]);
	}
}
CONTRACT(translation_fixed) {
	vec<real, 3> v = sym_vec<3>("v");
	translates(translation<mat<real, 4, 4>>(v), v, 4);
	vec<real, 2> w = sym_vec<2>("w");
	translates(translation<mat<real, 3, 3>>(w), w, 3);
	NO_ERROR();
}
CONTRACT(translation_dynamic) {
	const unsigned n = (unsigned) PICK_OR("n", 2, 9, 16, 33);
	BOUNDED("dynamic translation matrices up to 9x9, 16x16 and 33x33");
	vec<real> v = sym_dvec("v", n - 1);
	translates(translation<DM>(v, n, n), v, n);
	NO_ERROR();
}
CONTRACT(translation_wrong_size) {
	vec<real> v = sym_dvec("v", (unsigned) PICK("n", 0, 5));
	if (v.size() == 3) return;
	mat<real, 4, 4> m = translation<mat<real, 4, 4>>(v);
	SOME_ERROR();
	ENSURES_NAN("NaN on the diagonal", m(0, 0));
}
// ---- projections: the view volume becomes the cube [-1, 1]^3 (stored for row vectors: v^T M)
template<typename M> static void corner_to_cube(const M& m, real x, real y, real z, int sx, int sy, int sz) {
	real r[4];
	for (unsigned j = 0; j < 4; j++) r[j] = x * m(0, j) + y * m(1, j) + z * m(2, j) + m(3, j);
	ENSURES_EQ("x of the corner", r[0], sx * r[3]);
	ENSURES_EQ("y of the corner", r[1], sy * r[3]);
	ENSURES_EQ("z of the corner", r[2], sz * r[3]);
}
template<typename M> static void perspective_ok(unsigned rows, unsigned cols) {
	const real l = REAL("l"), r = REAL("r"), b = REAL("b"), t = REAL("t"), n = REAL("n"), f = REAL("f");
	REQUIRES(l != r && b != t && n != f && n != 0);
	const M m = perspective<M>(l, r, b, t, n, f, rows, cols);
	const int sx = PICK("sx", 0, 1) ? 1 : -1, sy = PICK("sy", 0, 1) ? 1 : -1, sz = PICK("sz", 0, 1) ? 1 : -1;
	const real z = sz > 0 ? f : n;        // distance along -z; the frustum widens as z / n
	corner_to_cube(m, (sx > 0 ? r : l) * z / n, (sy > 0 ? t : b) * z / n, -z, sx, sy, sz);
	ENSURES_EQ("w is the distance", m(0, 3) + 2 * m(1, 3) + 3 * m(2, 3) + m(3, 3), -3);
	NO_ERROR();
}
CONTRACT(perspective_fixed) { perspective_ok<mat<real, 4, 4>>(0, 0); }
CONTRACT(perspective_dynamic) { perspective_ok<DM>(4, 4); }
template<typename M> static void ortho_ok(unsigned rows, unsigned cols) {
	const real l = REAL("l"), r = REAL("r"), b = REAL("b"), t = REAL("t"), n = REAL("n"), f = REAL("f");
	REQUIRES(l != r && b != t && n != f);
	const M m = ortho<M>(l, r, b, t, n, f, rows, cols);
	const real x = REAL("x"), y = REAL("y"), z = REAL("z");
	real q[4];
	for (unsigned j = 0; j < 3; j++) q[j] = x * m(0, j) + y * m(1, j) + z * m(2, j) + m(3, j);
	ENSURES_EQ("x maps [l, r] to [-1, 1]", q[0], 2 * (x - l) / (r - l) - 1);
	ENSURES_EQ("y maps [b, t] to [-1, 1]", q[1], 2 * (y - b) / (t - b) - 1);
	ENSURES_EQ("-z maps [n, f] to [-1, 1]", q[2], 2 * (-z - n) / (f - n) - 1);
	NO_ERROR();
}
CONTRACT(ortho_fixed) { ortho_ok<mat<real, 4, 4>>(0, 0); }
CONTRACT(ortho_dynamic) { ortho_ok<DM>(4, 4); }
template<typename M> static void fov_ok(unsigned rows, unsigned cols) {
	const real fov = REAL("fov"), asp = REAL("aspect"), n = REAL("n"), f = REAL("f");
	const real t = tan(radians(fov / 2));
	REQUIRES(thv_isfinite(t) && t != 0 && asp != 0 && n != 0 && n != f);
	const M m = perspective_fov<M>(fov, asp, n, f, rows, cols);
	const mat<real, 4, 4> p = perspective<mat<real, 4, 4>>(-n * t * asp, n * t * asp, -n * t, n * t, n, f);
	for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < 4; j++) ENSURES_EQ("perspective of the field of view", m(i, j), p(i, j));
}
CONTRACT(perspective_fov_fixed) { fov_ok<mat<real, 4, 4>>(0, 0); }
CONTRACT(perspective_fov_dynamic) { fov_ok<DM>(4, 4); }
// ---- look_at: rigid motion taking the camera to the origin and the target on the negative z axis
CONTRACT(look_at_camera) {
	NODIV0();
	vec<real, 3> cam = sym_vec<3>("camera"), d, up;
	d = sym_vec<3>("direction");
	up[0] = 0; up[1] = 1; up[2] = 0;
	vec<real, 3> target;
	for (unsigned i = 0; i < 3; i++) target[i] = cam[i] + d[i];
	// not looking (almost) straight up or down
	REQUIRES(d[0] * d[0] + d[2] * d[2] > 1E-3 && d[1] * d[1] < 1E6 * (d[0] * d[0] + d[2] * d[2]));
	const mat<real, 4, 4> m = look_at<mat<real, 4, 4>>(cam, target, up);
	real q[4], w[4];
	for (unsigned i = 0; i < 4; i++) {
		q[i] = m(i, 0) * cam[0] + m(i, 1) * cam[1] + m(i, 2) * cam[2] + m(i, 3);
		w[i] = m(i, 0) * target[0] + m(i, 1) * target[1] + m(i, 2) * target[2] + m(i, 3);
	}
	for (unsigned i = 0; i < 3; i++) ENSURES_EQ("the camera is the origin", q[i], 0);
	ENSURES_EQ("target on the axis (x)", w[0], 0);
	ENSURES_EQ("target on the axis (y)", w[1], 0);
	ENSURES_EQ("target in front, at its distance", w[2], -thv_sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]));
	ENSURES_EQ("last row", w[3], 1);
	ENSURES_EQ("up has no sideways component", m(0, 1), 0);
	ENSURES("up points up", m(1, 1) > 0);
	for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) {
		real s = 0;
		for (unsigned k = 0; k < 3; k++) s += m(i, k) * m(j, k);
		ENSURES_EQ("axes are orthonormal", s, i == j ? 1 : 0);
	}
}
CONTRACT(symplectic_form) {
	const unsigned h = (unsigned) PICK_OR("h", 1, 5, 8, 16);
	BOUNDED("symplectic matrices up to 10x10, 16x16 and 32x32");
	const DM m = symplectic<DM>(2 * h, 2 * h);
	for (unsigned i = 0; i < 2 * h; i++) for (unsigned j = 0; j < 2 * h; j++)
		ENSURES_EQ("block form", m(i, j), j == i + h ? 1 : i == j + h ? -1 : 0);
	const mat<real, 4, 4> s = symplectic<mat<real, 4, 4>>();
	for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < 4; j++) ENSURES_EQ("block form (fixed)", s(i, j), j == i + 2 ? 1 : i == j + 2 ? -1 : 0);
	NO_ERROR();
}
CONTRACT(symplectic_odd) {
	const unsigned n = (unsigned) PICK("n", 1, 2);
	if (n == 1) { DM m = symplectic<DM>(3, 3); ENSURES_NAN("NaN", m(0, 0)); }
	else { mat<real, 3, 3> m = symplectic<mat<real, 3, 3>>(); ENSURES_NAN("NaN", m(0, 0)); }
	SOME_ERROR();
}
CONTRACT(hilbert_matrix) {
	const unsigned n = (unsigned) PICK_OR("n", 1, 10, 16, 33);
	BOUNDED("Hilbert matrices up to 10x10, 16x16 and 33x33");
	const DM H = hilbert<DM>(n);
	ENSURES("size", H.rows() == n && H.cols() == n);
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) ENSURES_EQ("H(i, j)", H(i, j) * (i + j + 1), 1);
}
CONTRACT(identity_diagonal) {
	const unsigned n = (unsigned) PICK_OR("n", 1, 8, 16, 33);
	BOUNDED("dynamic identity and diagonal matrices up to 8x8, 16x16 and 33x33");
	const DM I = identity<DM>(n, n);
	vec<real> v = sym_dvec("v", n);
	const DM D = diagonal<DM>(v, n, n);
	const mat<real, 3, 3> J = identity<mat<real, 3, 3>>();
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) {
		ENSURES_EQ("identity", I(i, j), i == j);
		ENSURES_EQ("diagonal", D(i, j), i == j ? v[i] : 0);
		if (i < 3 && j < 3) ENSURES_EQ("identity (fixed)", J(i, j), i == j);
	}
	NO_ERROR();
}
CONTRACT(diagonal_wrong_size) {
	const unsigned n = (unsigned) PICK("n", 1, 4), r = (unsigned) PICK("r", 1, 4), c = (unsigned) PICK("c", 1, 4);
	if (n == r && n == c) return;
	const DM D = diagonal<DM>(sym_dvec("v", n), r, c);
	SOME_ERROR();
	ENSURES_NAN("NaN on the diagonal", D(0, 0));
}
CONTRACT(sphere_inversions) {
	vec<real, 3> p = sym_vec<3>("p"), c = sym_vec<3>("c");
	const real r = REAL("r");
	real d2 = 0;
	for (unsigned i = 0; i < 3; i++) d2 += (p[i] - c[i]) * (p[i] - c[i]);
	REQUIRES(d2 > 0);
	const vec<real, 3> q = sphere_inversion(p, c, r);
	real e2 = 0;
	for (unsigned i = 0; i < 3; i++) {
		ENSURES_EQ("on the ray at r^2 / d", q[i], c[i] + (p[i] - c[i]) * r * r / d2);
		e2 += (q[i] - c[i]) * (q[i] - c[i]);
	}
	ENSURES_EQ("product of the distances", e2 * d2, r * r * r * r);
}
// larger and rectangular matrices: the leading block rotates, the rest is the identity
CONTRACT(rotations_embedded) {
	BOUNDED("dynamic matrices of 3 to 7, 12 rows and columns");
	const unsigned which = (unsigned) PICK("which", 0, 4), r = PICK_OR("rows", 3, 7, 12), c = PICK_OR("cols", 3, 7, 12);
	const real t = REAL("theta"), s = thv_sin(t), co = thv_cos(t);
	const vec<real, 3> k = sym_vec<3>("k");
	const DM m = which == 0 ? rotation_3d<DM>(t, k, r, c) : which == 1 ? rotation_3d_xaxis<DM>(t, r, c) : which == 2 ? rotation_3d_yaxis<DM>(t, r, c)
		: which == 3 ? rotation_3d_zaxis<DM>(t, r, c) : rotation_2d<DM>(t, r, c);
	const mat<real, 3, 3> e = which == 0 ? rotation_3d<mat<real, 3, 3>>(t, k) : which == 1 ? rotation_3d_xaxis<mat<real, 3, 3>>(t)
		: which == 2 ? rotation_3d_yaxis<mat<real, 3, 3>>(t) : rotation_3d_zaxis<mat<real, 3, 3>>(t);
	ENSURES("size", m.rows() == r && m.cols() == c);
	for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) ENSURES_EQ("element", m(i, j), i < 3 && j < 3 ? e(i, j) : i == j ? 1 : 0);
	if (which > 2) { ENSURES_EQ("cosine", m(1, 1), co); ENSURES_EQ("sine", m(1, 0), s); }
	NO_ERROR();
}
CONTRACT(projections_embedded) {
	BOUNDED("dynamic matrices of 4 to 6, 12 rows and columns");
	const unsigned which = (unsigned) PICK("which", 0, 2), r = PICK_OR("rows", 4, 6, 12), q = PICK_OR("cols", 4, 6, 12);
	const real a = REAL("l"), b = REAL("r"), c = REAL("b"), d = REAL("t"), n = REAL("n"), f = REAL("f"), t = tan(radians(a / 2));
	REQUIRES(a != b && b != 0 && c != d && n != f && n != 0 && c != 0 && thv_isfinite(t) && t != 0);
	typedef mat<real, 4, 4> M4;
	const DM m = which == 0 ? perspective<DM>(a, b, c, d, n, f, r, q) : which == 1 ? ortho<DM>(a, b, c, d, n, f, r, q) : perspective_fov<DM>(a, b, n, f, r, q);
	const M4 e = which == 0 ? perspective<M4>(a, b, c, d, n, f) : which == 1 ? ortho<M4>(a, b, c, d, n, f) : perspective_fov<M4>(a, b, n, f);
	ENSURES("size", m.rows() == r && m.cols() == q);
	for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < 4; j++) ENSURES_EQ("element", m(i, j), e(i, j));
}
template<unsigned N> static void inversion() {
	const vec<real, N> p = sym_vec<N>("p"), c = sym_vec<N>("c");
	const real r = REAL("r");
	real d2 = 0;
	for (unsigned i = 0; i < N; i++) d2 += (p[i] - c[i]) * (p[i] - c[i]);
	REQUIRES(d2 > 0);
	const vec<real, N> q = sphere_inversion(p, c, r);
	for (unsigned i = 0; i < N; i++) ENSURES_EQ("on the ray at r^2 / d", q[i], c[i] + (p[i] - c[i]) * r * r / d2);
}
CONTRACT(sphere_inversion_dimensions) {
	const unsigned n = (unsigned) PICK("dimension", 0, 5);
	switch (n) { case 0: inversion<1>(); break; case 1: inversion<2>(); break; case 2: inversion<4>(); break; case 3: inversion<5>(); break; case 4: inversion<9>(); break; default: inversion<17>(); }
}
