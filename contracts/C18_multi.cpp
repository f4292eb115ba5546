#include "thvlib.h"
// Multivariate roots and extrema: the functions are given as pointers, so that their coefficients are globals.
static real A[2][2], B[2], K[2], M[2];
static autodiff::dvec_t<2> affine(autodiff::dvec_t<2> x) {
	autodiff::dvec_t<2> y;
	for (unsigned i = 0; i < 2; i++) y[i] = A[i][0] * x[0] + A[i][1] * x[1] - B[i];
	return y;
}
static multidual<2> bowl(vec<multidual<2>, 2> x) { return K[0] * square(x[0] - M[0]) + K[1] * square(x[1] - M[1]); }
CONTRACT(newton_affine) {
	for (unsigned i = 0; i < 2; i++) { B[i] = REAL("b"); for (unsigned j = 0; j < 2; j++) A[i][j] = REAL("A"); }
	REQUIRES(A[0][0] > 0.1 && A[1][1] > 0.1 && A[0][1] == 0.5 && A[1][0] == -0.25);
	const vec2 r = multiroot_newton<2>(affine, sym_vec<2>("x"), 1E-9, 5);
	for (unsigned i = 0; i < 2; i++) {
		const real y = A[i][0] * r[0] + A[i][1] * r[1] - B[i];
		ENSURES("root within the tolerance", y <= 1E-9 && y >= -1E-9);
	}
	NO_ERROR();
}
CONTRACT(gradient_step) {
	BOUNDED("gradient descent: one or two iterations");
	NODIV0();
	for (unsigned i = 0; i < 2; i++) { K[i] = REAL("k"); M[i] = REAL("m"); }
	const bool max = PICK("maximum", 0, 1);
	const unsigned n = (unsigned) PICK("iterations", 1, 2);
	const real g = REAL("gamma"), tol = REAL("tolerance");
	REQUIRES(g < 0 && tol > 0);
	vec2 x = sym_vec<2>("x");
	const vec2 r = max ? multi_maximize_grad<2>(bowl, x, g, tol, n) : multi_minimize_grad<2>(bowl, x, g, tol, n);
	for (unsigned k = 0; k < n; k++) {
		const real d0 = 2 * K[0] * (x[0] - M[0]), d1 = 2 * K[1] * (x[1] - M[1]);
		x[0] += (max ? -g : g) * d0;
		x[1] += (max ? -g : g) * d1;
		if (thv_sqrt(d0 * d0 + d1 * d1) <= tol) {
			ENSURES_EQ("first coordinate", r[0], x[0]);
			ENSURES_EQ("second coordinate", r[1], x[1]);
			NO_ERROR();
			return;
		}
	}
	ENSURES_NAN("NaN if there is no convergence", r[0]);
	SOME_ERROR();
}
CONTRACT(gradient_domain) {
	const real g = REAL("gamma");
	REQUIRES(g >= 0);
	const vec2 x = sym_vec<2>("x"), r = PICK("maximum", 0, 1) ? multi_maximize_grad<2>(bowl, x, g) : multi_minimize_grad<2>(bowl, x, g);
	ENSURES_NAN("NaN", r[0]);
	ENSURES_NAN("NaN", r[1]);
	SOME_ERROR();
}
CONTRACT(line_search) {
	BOUNDED("gradient descent with line search: 4 (8) parabolic functions, 2 (3) tolerances");
	IEEE();
	const int k = (int) PICK("k", 1, TIER(2, 4)), t = (int) PICK("tolerance", 0, TIER(1, 2)), how = t == 0;
	const bool max = PICK("maximum", 0, 1);
	K[0] = max ? -1 : 1; K[1] = max ? -k : k;
	M[0] = 0.5 * k; M[1] = -1;
	const vec2 x = {2, 1.5};
	const real tol = t == 0 ? 1E-1 : t == 1 ? 1E-3 : 1E-4;
	const vec2 r = max ? (how ? multi_maximize<2>(bowl, x, tol) : multi_maximize_lingrad<2>(bowl, x, tol)) :
		(how ? multi_minimize<2>(bowl, x, tol) : multi_minimize_lingrad<2>(bowl, x, tol));
	ENSURES("first coordinate", abs(r[0] - M[0]) <= tol);
	ENSURES("second coordinate", abs(r[1] - M[1]) <= tol);
	NO_ERROR();
}
// the same, with vectors of dynamic size
static autodiff::dvec_t<0> affine_d(autodiff::dvec_t<0> x) {
	autodiff::dvec_t<0> y = x;
	for (unsigned i = 0; i < 2; i++) y[i] = A[i][0] * x[0] + A[i][1] * x[1] - B[i];
	return y;
}
static multidual<0> bowl_d(vec<multidual<0>, 0> x) { return K[0] * square(x[0] - M[0]) + K[1] * square(x[1] - M[1]); }
CONTRACT(newton_affine_dynamic) {
	BOUNDED("two unknowns");
	for (unsigned i = 0; i < 2; i++) { B[i] = REAL("b"); for (unsigned j = 0; j < 2; j++) A[i][j] = REAL("A"); }
	REQUIRES(A[0][0] > 0.1 && A[1][1] > 0.1 && A[0][1] == 0.5 && A[1][0] == -0.25);
	const unsigned n = PICK_OR("iterations", 0, 3, 5, 20);
	const vec<real> r = multiroot_newton<0>(affine_d, sym_dvec("x", 2), 1E-9, n);
	ENSURES("two unknowns", r.size() == 2);
	if (n < 2 && errno) { for (unsigned i = 0; i < 2; i++) ENSURES_NAN("NaN without convergence", r[i]); return; }
	for (unsigned i = 0; i < 2; i++) {
		const real y = A[i][0] * r[0] + A[i][1] * r[1] - B[i];
		ENSURES("root within the tolerance", y <= 1E-9 && y >= -1E-9);
	}
	NO_ERROR();
}
CONTRACT(gradient_dynamic) {
	BOUNDED("two variables, one iteration");
	NODIV0();
	for (unsigned i = 0; i < 2; i++) { K[i] = REAL("k"); M[i] = REAL("m"); }
	const bool max = PICK("maximum", 0, 1);
	const real g = REAL("gamma"), tol = REAL("tolerance");
	REQUIRES(tol > 0);
	const vec<real> x = sym_dvec("x", 2), r = max ? multi_maximize_grad<0>(bowl_d, x, g, tol, 1) : multi_minimize_grad<0>(bowl_d, x, g, tol, 1);
	ENSURES("two variables", r.size() == 2);
	const real d0 = 2 * K[0] * (x[0] - M[0]), d1 = 2 * K[1] * (x[1] - M[1]);
	if (g < 0 && thv_sqrt(d0 * d0 + d1 * d1) <= tol) {
		ENSURES_EQ("first coordinate", r[0], x[0] + (max ? -g : g) * d0);
		ENSURES_EQ("second coordinate", r[1], x[1] + (max ? -g : g) * d1);
		NO_ERROR();
	} else { for (unsigned i = 0; i < 2; i++) ENSURES_NAN("NaN", r[i]); SOME_ERROR(); }
}
// too few iterations: the result is marked
CONTRACT(lingrad_without_convergence) {
	BOUNDED("gradient descent with line search: a given parabolic function, 1 and 2 iterations, tolerances 1e-3 and 1e-9");
	IEEE();
	K[0] = 3; K[1] = 1; M[0] = 0.5; M[1] = -0.25;
	const bool max = PICK("maximum", 0, 1); if (max) { K[0] = -3; K[1] = -1; }
	const unsigned n = (unsigned) PICK("iterations", 1, 2); const real tol = PICK("tolerance", 0, 1) ? 1E-9 : 1E-3;
	errno = 0; const vec2 x = {1.0, 1.5}, r = max ? multi_maximize_lingrad<2>(bowl, x, tol, n) : multi_minimize_lingrad<2>(bowl, x, tol, n);
	for (unsigned i = 0; i < 2; i++) ENSURES_NAN("NaN", r[i]);
	SOME_ERROR();
}
