#include "thvany.h"
using namespace regression;
struct Sums { real w, x, y, xx, xy; };
static Sums sums(const G& X, const G& Y) {
	Sums s = { 0, 0, 0, 0, 0 };
	for (size_t i = 0; i < X.n; i++) { s.x += X[i]; s.y += Y[i]; s.xx += X[i] * X[i]; s.xy += X[i] * Y[i]; }
	s.w = X.n;
	return s;
}
static Sums wsums(const G& X, const G& Y, const G& P) {
	Sums s = { 0, 0, 0, 0, 0 };
	for (size_t i = 0; i < X.n; i++) { s.w += P[i]; s.x += P[i] * X[i]; s.y += P[i] * Y[i]; s.xx += P[i] * X[i] * X[i]; s.xy += P[i] * X[i] * Y[i]; }
	return s;
}
static void normal_equations(const Sums& s, real A, real B) {
	ENSURES_EQ("first normal equation", s.w * A + s.x * B, s.y);
	ENSURES_EQ("second normal equation", s.x * A + s.xx * B, s.xy);
}
static void covariance(const Sums& s, const mat2& C, real v) {
	ENSURES_EQ("covariance 00", s.w * C(0, 0) + s.x * C(1, 0), v);
	ENSURES_EQ("covariance 01", s.w * C(0, 1) + s.x * C(1, 1), 0);
	ENSURES_EQ("covariance 10", s.x * C(0, 0) + s.xx * C(1, 0), 0);
	ENSURES_EQ("covariance 11", s.x * C(0, 1) + s.xx * C(1, 1), v);
}
CONTRACT(unbounded_ols) {
	UNBOUNDED();
	NODIV0();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n);
	SUM_BY_CONTRACT();
	const Sums s = sums(X, Y);
	const real D = s.w * s.xx - s.x * s.x, sg = REAL("sigma");
	REQUIRES(D == 0 || D > 1E-10);
	real A, B, A2, B2, sA, sB, A3, B3;
	mat2 C;
	errno = 0; ols_linear(X, Y, A, B); const int e1 = errno;
	errno = 0; ols_linear(X, Y, sg, A2, B2, sA, sB); const int e2 = errno;
	errno = 0; ols_linear(X, Y, sg, A3, B3, C); const int e3 = errno;
	if (D == 0) {
		ENSURES_NAN("undetermined", A); ENSURES_NAN("undetermined", B); ENSURES_NAN("undetermined", A2); ENSURES_NAN("undetermined", B2);
		ENSURES_NAN("undetermined", A3); ENSURES_NAN("undetermined", B3);
		ENSURES("errno is set", e1 && e2 && e3);
		return;
	}
	ENSURES("no error", !e1 && !e2 && !e3);
	normal_equations(s, A, B);
	ENSURES_EQ("same intercept", A2, A); ENSURES_EQ("same slope", B2, B);
	ENSURES_EQ("same intercept", A3, A); ENSURES_EQ("same slope", B3, B);
	covariance(s, C, sg * sg);
	ENSURES_EQ("sigma_A", sA * sA, C(0, 0)); ENSURES_EQ("sigma_B", sB * sB, C(1, 1));
	ENSURES_EQ("ols_linear_intercept", ols_linear_intercept(X, Y), A);
	ENSURES_EQ("ols_linear_slope", ols_linear_slope(X, Y), B);
}
CONTRACT(unbounded_wls) {
	UNBOUNDED();
	NODIV0();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n), W = any("w", n);
	SUM_BY_CONTRACT();
	for (size_t i = 0; i < n; i++) REQUIRES(W[i] > 0);
	const Sums s = wsums(X, Y, W);
	const real D = s.w * s.xx - s.x * s.x;
	REQUIRES(D == 0 || D > 1E-10);
	real A, B;
	mat2 C;
	errno = 0;
	wls_linear(X, Y, W, A, B, C);
	if (D == 0) { ENSURES_NAN("undetermined", A); ENSURES_NAN("undetermined", B); SOME_ERROR(); return; }
	normal_equations(s, A, B);
	covariance(s, C, 1);
	ENSURES_EQ("wls_linear_intercept", wls_linear_intercept(X, Y, W), A);
	ENSURES_EQ("wls_linear_slope", wls_linear_slope(X, Y, W), B);
	NO_ERROR();
}
CONTRACT(unbounded_deming) {
	UNBOUNDED();
	const size_t n = thv_size("n", 2);
	G X = any("x", n), Y = any("y", n);
	SUM_BY_CONTRACT();
	const real p = REAL("sx"), q = REAL("sy");
	REQUIRES(p > 1E-3 && q > 1E-3);
	const Sums s = sums(X, Y);
	real yy = 0;
	for (size_t i = 0; i < n; i++) yy += Y[i] * Y[i];
	const real mx = s.x / n, my = s.y / n, xx = s.xx / n - mx * mx, xy = s.xy / n - mx * my;
	yy = yy / n - my * my;
	REQUIRES(xy > 1E-10 || xy < -1E-10);
	NODIV0();
	real A, B;
	mat2 C;
	wls_linear(X, Y, p, q, A, B, C);
	const real D = p * p * yy - q * q * xx;
	ENSURES_EQ("through the means", A + B * mx, my);
	ENSURES_EQ("the root of positive covariance", 2 * p * p * xy * B - D, thv_sqrt(D * D + 4 * (p * q * xy) * (p * q * xy)));
}
CONTRACT(unbounded_origin) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n), W = any("w", n);
	SUM_BY_CONTRACT();
	const real sg = REAL("sigma");
	for (size_t i = 0; i < n; i++) REQUIRES(W[i] > 0);
	const Sums s = sums(X, Y), t = wsums(X, Y, W);
	REQUIRES((s.x > 1E-10 || s.x < -1E-10) && (t.x > 1E-10 || t.x < -1E-10));
	real B, sB, C, sC;
	errno = 0;
	ols_linear_orig(X, Y, sg, B, sB);
	wls_linear_orig(X, Y, W, C, sC);
	NO_ERROR();
	ENSURES_EQ("slope", B * s.x, s.y);
	ENSURES_EQ("error of the slope", sB * sB * (s.x * s.x), n * sg * sg);
	ENSURES_EQ("weighted slope", C * t.x, t.y);
	ENSURES_EQ("error of the weighted slope", sC * sC * (t.x * t.x), t.w);
}
CONTRACT(unbounded_residual) {
	UNBOUNDED();
	const size_t n = thv_size("n", 0);
	G X = any("x", n), Y = any("y", n);
	const real A = REAL("A"), B = REAL("B");
	errno = 0;
	const real e = ols_linear_error(X, Y, A, B);
	if (n <= 2) { ENSURES_NAN("no degrees of freedom", e); SOME_ERROR(); return; }
	real s = 0;
	for (size_t i = 0; i < n; i++) s += (Y[i] - A - B * X[i]) * (Y[i] - A - B * X[i]);
	ENSURES_EQ("error of the fit", e, thv_sqrt(s / (n - 2)));
	NO_ERROR();
}
CONTRACT(unbounded_wrong_fits) {
	UNBOUNDED();
	G X = any("x", thv_size("n", 0)), Y = any("y", thv_size("m", 0));
	REQUIRES(X.n != Y.n);
	real A = 0, B = 0, sA, sB;
	mat2 C;
	errno = 0;
	switch (PICK("which", 0, 10)) {
		case 0: ols_linear(X, Y, A, B); break;
		case 1: ols_linear(X, Y, 1.0, A, B, sA, sB); break;
		case 2: ols_linear(X, Y, 1.0, A, B, C); break;
		case 3: wls_linear(X, Y, X, A, B, C); break;
		case 4: wls_linear(X, X, Y, A, B, C); break;
		case 5: wls_linear(X, Y, 1.0, 1.0, A, B, C); break;
		case 6: ols_linear_orig(X, Y, 1.0, B, sB); A = B; break;
		case 7: wls_linear_orig(X, Y, X, B, sB); A = B; break;
		case 8: wls_linear_orig(X, X, Y, B, sB); A = B; break;
		case 9: A = B = ols_linear_error(X, Y, 1.0, 1.0); break;
		default: { linear_model m(X, Y); A = m.A; B = m.B; }
	}
	ENSURES_NAN("intercept", A); ENSURES_NAN("slope", B);
	SOME_ERROR();
}
