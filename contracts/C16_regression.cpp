#include "thvlib.h"
using namespace regression;
typedef std::vector<real> SV;
typedef vec<real> DV;
static unsigned model_size() { return PICK_OR("n", 5, 9, 33, 65); }
template<class V> static V sym_data(const char* n, unsigned k) {
	V v;
	v.resize(k);
	for (unsigned i = 0; i < k; i++) v[i] = REAL(n);
	return v;
}
struct Sums { real w, x, y, xx, xy; };
template<class V, class W> static Sums sums(const V& X, const V& Y, const W& P) {
	Sums s = { 0, 0, 0, 0, 0 };
	for (unsigned i = 0; i < X.size(); i++) {
		s.w += P[i]; s.x += P[i] * X[i]; s.y += P[i] * Y[i]; s.xx += P[i] * X[i] * X[i]; s.xy += P[i] * X[i] * Y[i];
	}
	return s;
}
static bool clear(real x) { return x == 0 || x > 1E-10 || x < -1E-10; }
// the coefficients solve the normal equations, so they are the minimum of the weighted sum of squares
static void normal_equations(const Sums& s, real A, real B) {
	ENSURES_EQ("first normal equation", s.w * A + s.x * B, s.y);
	ENSURES_EQ("second normal equation", s.x * A + s.xx * B, s.xy);
}
// the covariance matrix is the inverse of the matrix of the normal equations
static void covariance(const Sums& s, const mat2& C, real v) {
	ENSURES_EQ("covariance 00", s.w * C(0, 0) + s.x * C(1, 0), v);
	ENSURES_EQ("covariance 01", s.w * C(0, 1) + s.x * C(1, 1), 0);
	ENSURES_EQ("covariance 10", s.x * C(0, 0) + s.xx * C(1, 0), 0);
	ENSURES_EQ("covariance 11", s.x * C(0, 1) + s.xx * C(1, 1), v);
}
#define SIZES "fits of 0 to 6 points"
template<class V> static void ols(unsigned n, bool large = false) {
	const V X = large ? probe_data<V>("x", n, (unsigned) PICK("pattern", 0, 4), PROBE_POS(n)) : sym_data<V>("x", n), Y = sym_data<V>("y", n); V P = X;
	for (unsigned i = 0; i < n; i++) P[i] = 1;
	const Sums s = sums(X, Y, P);
	const real D = s.w * s.xx - s.x * s.x, sg = REAL("sigma");
	REQUIRES(D == 0 || D > 1E-10);
	real A, B, A2, B2, sA, sB, A3, B3;
	mat2 C;
	errno = 0; ols_linear(X, Y, A, B); const int e1 = errno;
	errno = 0; ols_linear(X, Y, sg, A2, B2, sA, sB); const int e2 = errno;
	errno = 0; ols_linear(X, Y, sg, A3, B3, C); const int e3 = errno;
	if (n == 0 || D == 0) {
		ENSURES_NAN("undetermined", A); ENSURES_NAN("undetermined", B); ENSURES_NAN("undetermined", A2); ENSURES_NAN("undetermined", B2);
		ENSURES_NAN("undetermined", A3); ENSURES_NAN("undetermined", B3);
		ENSURES("errno is set", e1 && e2 && e3);
		return;
	}
	ENSURES("no error", !e1 && !e2 && !e3);
	normal_equations(s, A, B);
	ENSURES_EQ("same intercept", A2, A); ENSURES_EQ("same slope", B2, B);
	ENSURES_EQ("same intercept", A3, A); ENSURES_EQ("same slope", B3, B);
	covariance(s, C, sg * sg);
	ENSURES_EQ("sigma_A", sA * sA, C(0, 0)); ENSURES_EQ("sigma_B", sB * sB, C(1, 1));
	ENSURES("not negative", sA >= 0 && sB >= 0);
	ENSURES_EQ("ols_linear_intercept", ols_linear_intercept(X, Y), A);
	ENSURES_EQ("ols_linear_slope", ols_linear_slope(X, Y), B);
	const real tA = ols_linear_sigma_A(X, Y, sg), tB = ols_linear_sigma_B(X, Y, sg);
	ENSURES_EQ("ols_linear_sigma_A", tA * tA, C(0, 0)); ENSURES_EQ("ols_linear_sigma_B", tB * tB, C(1, 1));
	ENSURES("not negative", tA >= 0 && tB >= 0);
}
CONTRACT(ols_std) { BOUNDED(SIZES); NODIV0(); ols<SV>((unsigned) PICK("n", 0, 4)); }
CONTRACT(ols_vec) { BOUNDED(SIZES); NODIV0(); ols<DV>((unsigned) PICK("n", 0, 6)); }
template<class V> static void wls(unsigned n, bool large = false) {
	const V X = large ? probe_data<V>("x", n, (unsigned) PICK("pattern", 0, 4), PROBE_POS(n)) : sym_data<V>("x", n), Y = sym_data<V>("y", n);
	V W = sym_data<V>("w", n); if (large) for (unsigned i = 0; i < n; i++) W[i] = (real) (int) (i % 5 + 1) / 4;
	for (unsigned i = 0; i < n; i++) REQUIRES(W[i] > 0);
	const Sums s = sums(X, Y, W);
	const real D = s.w * s.xx - s.x * s.x;
	REQUIRES(D == 0 || D > 1E-10);
	real A, B;
	mat2 C;
	errno = 0;
	wls_linear(X, Y, W, A, B, C);
	if (n == 0 || D == 0) { ENSURES_NAN("undetermined", A); ENSURES_NAN("undetermined", B); SOME_ERROR(); return; }
	normal_equations(s, A, B);
	covariance(s, C, 1);
	ENSURES_EQ("wls_linear_intercept", wls_linear_intercept(X, Y, W), A);
	ENSURES_EQ("wls_linear_slope", wls_linear_slope(X, Y, W), B);
	NO_ERROR();
}
CONTRACT(wls_std) { BOUNDED(SIZES); wls<SV>((unsigned) PICK("n", 0, 4)); }
CONTRACT(wls_vec) { BOUNDED(SIZES); wls<DV>((unsigned) PICK("n", 0, 5)); }
#define LARGE "fits of 6 to 10, 33, 100 points, " PROBES
static unsigned large_size() { return PICK_OR("n", 6, 10, 33, 100); }
CONTRACT(ols_large) { BOUNDED(LARGE); NODIV0(); if (PICK("container", 0, 1)) ols<SV>(large_size(), true); else ols<DV>(large_size(), true); }
CONTRACT(wls_large) { BOUNDED(LARGE); NODIV0(); if (PICK("container", 0, 1)) wls<SV>(large_size(), true); else wls<DV>(large_size(), true); }
CONTRACT(deming) {
	const unsigned n = (unsigned) PICK("n", 2, 3);
	BOUNDED("fits of 2 and 3 points with errors on both axes");
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n);
	const real p = REAL("sx"), q = REAL("sy");
	REQUIRES(p > 1E-3 && q > 1E-3);
	real mx = 0, my = 0, xx = 0, yy = 0, xy = 0;
	for (unsigned i = 0; i < n; i++) { mx += X[i] / n; my += Y[i] / n; xx += X[i] * X[i] / n; yy += Y[i] * Y[i] / n; xy += X[i] * Y[i] / n; }
	xx -= mx * mx; yy -= my * my; xy -= mx * my;
	REQUIRES(xy > 1E-10 || xy < -1E-10);
	NODIV0();
	real A, B;
	mat2 C;
	wls_linear(X, Y, p, q, A, B, C);
	const real D = p * p * yy - q * q * xx;
	ENSURES_EQ("stationary", p * p * xy * B * B - D * B - q * q * xy, 0);
	ENSURES_EQ("through the means", A + B * mx, my);
	ENSURES_EQ("the root of positive covariance", 2 * p * p * xy * B - D, thv_sqrt(D * D + 4 * (p * q * xy) * (p * q * xy)));
}
CONTRACT(through_origin) {
	const unsigned n = PICK_OR("n", 1, 8, 17, 33, 100);
	BOUNDED("fits of up to 8, 17, 33, 100 points, over 5 with given abscissae and weights but one");
	const DV X = n > 5 ? probe_data<DV>("x", n, (unsigned) PICK("pattern", 0, 4), PROBE_POS(n)) : sym_data<DV>("x", n), Y = sym_data<DV>("y", n);
	DV W = sym_data<DV>("w", n); if (n > 5) for (unsigned i = 0; i < n; i++) if (i != n / 2) W[i] = (real) (int) (i % 5 + 1) / 4;
	const real sg = REAL("sigma");
	DV P(n);
	for (unsigned i = 0; i < n; i++) { P[i] = 1; REQUIRES(W[i] > 0); }
	const Sums s = sums(X, Y, P), t = sums(X, Y, W);
	REQUIRES(clear(s.x) && clear(t.x));
	real B, sB, C, sC;
	errno = 0; ols_linear_orig(X, Y, sg, B, sB); const int e1 = errno;
	errno = 0; wls_linear_orig(X, Y, W, C, sC); const int e2 = errno;
	if (s.x == 0) { ENSURES_NAN("undetermined", B); ENSURES("errno is set", e1); }
	else {
		ENSURES_EQ("slope", B * s.x, s.y);
		ENSURES_EQ("error of the slope", sB * sB * (s.x * s.x), n * sg * sg);
		ENSURES("no error", !e1 && sB >= 0);
	}
	if (t.x == 0) { ENSURES_NAN("undetermined", C); ENSURES("errno is set", e2); }
	else {
		ENSURES_EQ("weighted slope", C * t.x, t.y);
		ENSURES_EQ("error of the weighted slope", sC * sC * (t.x * t.x), t.w);
		ENSURES("no error", !e2 && sC >= 0);
	}
}
CONTRACT(residual_error) {
	const unsigned n = PICK_OR("n", 0, 8, 17, 33);
	BOUNDED("up to 8, 17, 33 points");
	const SV X = sym_data<SV>("x", n);
	const DV Y = sym_data<DV>("y", n);
	const real A = REAL("A"), B = REAL("B");
	errno = 0;
	const real e = ols_linear_error(X, Y, A, B);
	if (n <= 2) { ENSURES_NAN("no degrees of freedom", e); SOME_ERROR(); return; }
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += (Y[i] - A - B * X[i]) * (Y[i] - A - B * X[i]);
	ENSURES_EQ("error of the fit", e, thv_sqrt(s / (n - 2)));
	NO_ERROR();
}
CONTRACT(wrong_sizes) {
	const SV X = sym_data<SV>("x", 3), Y = sym_data<SV>("y", 4), Z = sym_data<SV>("z", 3);
	real A = 0, B = 0, sA, sB;
	mat2 C;
	errno = 0;
	switch (PICK("which", 0, 10)) {
		case 0: ols_linear(X, Y, A, B); break;
		case 1: ols_linear(X, Y, 1.0, A, B, sA, sB); break;
		case 2: ols_linear(X, Y, 1.0, A, B, C); break;
		case 3: wls_linear(X, Y, Z, A, B, C); break;
		case 4: wls_linear(X, Z, Y, A, B, C); break;
		case 5: wls_linear(X, Y, 1.0, 1.0, A, B, C); break;
		case 6: ols_linear_orig(X, Y, 1.0, B, sB); A = B; break;
		case 7: wls_linear_orig(X, Y, Z, B, sB); A = B; break;
		case 8: wls_linear_orig(X, Z, Y, B, sB); A = B; break;
		case 9: A = B = ols_linear_error(X, Y, 1.0, 1.0); break;
		default: { linear_model m(X, Y); A = m.A; B = m.B; }
	}
	SOME_ERROR();
	ENSURES_NAN("intercept", A); ENSURES_NAN("slope", B);
}
CONTRACT(model_plain) {
	const unsigned n = (unsigned) PICK("n", 0, 4);
	BOUNDED("models of up to 4 points");
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n);
	const SV P(n, 1.0);
	const Sums s = sums(X, Y, P);
	const real D = s.w * s.xx - s.x * s.x;
	REQUIRES(D == 0 || D > 1E-10);
	errno = 0;
	linear_model m(X, Y);
	if (n <= 2 || D == 0) {
		ENSURES_NAN("A", m.A); ENSURES_NAN("B", m.B); SOME_ERROR();
		ENSURES_NAN("err", m.err); ENSURES_NAN("sigma_A", m.sigma_A); ENSURES_NAN("sigma_B", m.sigma_B);
		ENSURES_NAN("chi squared", m.chi_squared); ENSURES_NAN("p-value", m.p_value);
		return;
	}
	normal_equations(s, m.A, m.B);
	real r = 0;
	for (unsigned i = 0; i < n; i++) { const real d = Y[i] - m.A - m.B * X[i]; r += d * d; }
	ENSURES_EQ("error of the fit", m.err * m.err * (n - 2), r);
	ENSURES("degrees of freedom", m.ndf == n - 2);
	const real x = REAL("x");
	ENSURES_EQ("model", m(x), m.A + m.B * x);
	NO_ERROR();
}
CONTRACT(model_sigma) {
	ABSTRACT1("pvalue_chi_squared");
	const unsigned n = (unsigned) PICK("n", 2, 4);
	BOUNDED("models of up to 4 points");
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n);
	const SV P(n, 1.0);
	const Sums s = sums(X, Y, P);
	const real D = s.w * s.xx - s.x * s.x, sg = REAL("sigma");
	REQUIRES((D == 0 || D > 1E-10) && clear(sg));
	NODIV0();
	errno = 0;
	linear_model m(X, Y, sg);
	if (n <= 2 || D == 0 || sg == 0) { ENSURES_NAN("A", m.A); ENSURES_NAN("B", m.B); SOME_ERROR(); return; }
	normal_equations(s, m.A, m.B);
	covariance(s, m.covar_mat, sg * sg);
	real r = 0;
	for (unsigned i = 0; i < n; i++) { const real d = Y[i] - m.A - m.B * X[i]; r += d * d; }
	ENSURES_EQ("chi squared", m.chi_squared * sg * sg, r);
	ENSURES("degrees of freedom", m.ndf == n - 2);
	ENSURES_EQ("p-value", m.p_value, stats::pvalue_chi_squared(m.chi_squared, m.ndf));
	ENSURES_EQ("sigma_A", m.sigma_A * m.sigma_A, m.covar_mat(0, 0));
	ENSURES_EQ("sigma_B", m.sigma_B * m.sigma_B, m.covar_mat(1, 1));
}
CONTRACT(model_sigmas) {
	ABSTRACT1("pvalue_chi_squared");
	const unsigned n = (unsigned) PICK("n", 3, TIER(3, 4));
	BOUNDED("models of 3 (4) points");
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n), S = sym_data<SV>("s", n);
	SV W(n);
	for (unsigned i = 0; i < n; i++) { REQUIRES(S[i] > 1E-3); W[i] = 1 / (S[i] * S[i]); }
	const Sums s = sums(X, Y, W);
	const real D = s.w * s.xx - s.x * s.x;
	REQUIRES(D > 1E-10);
	NODIV0();
	errno = 0;
	linear_model m(X, Y, S);
	normal_equations(s, m.A, m.B);
	covariance(s, m.covar_mat, 1);
	real r = 0;
	for (unsigned i = 0; i < n; i++) { const real d = Y[i] - m.A - m.B * X[i]; r += d * d * W[i]; }
	ENSURES_EQ("chi squared", m.chi_squared, r);
	ENSURES("degrees of freedom", m.ndf == n - 2);
	ENSURES_EQ("p-value", m.p_value, stats::pvalue_chi_squared(m.chi_squared, m.ndf));
}
CONTRACT(model_both_sigmas) {
	ABSTRACT1("pvalue_chi_squared");
	const unsigned n = 3;
	BOUNDED("models of 3 points");
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n);
	const real p = REAL("sx"), q = REAL("sy");
	REQUIRES(p > 1E-3 && q > 1E-3);
	real mx = 0, my = 0, xx = 0, yy = 0, xy = 0;
	for (unsigned i = 0; i < n; i++) { mx += X[i] / n; my += Y[i] / n; xx += X[i] * X[i] / n; yy += Y[i] * Y[i] / n; xy += X[i] * Y[i] / n; }
	xy -= mx * my;
	REQUIRES(xy > 1E-10 || xy < -1E-10);
	NODIV0();
	linear_model m(X, Y, p, q);
	real A, B;
	mat2 C;
	wls_linear(X, Y, p, q, A, B, C);
	ENSURES_EQ("intercept", m.A, A); ENSURES_EQ("slope", m.B, B);
	real r = 0;
	for (unsigned i = 0; i < n; i++) { const real d = Y[i] - m.A - m.B * X[i]; r += d * d; }
	ENSURES_EQ("chi squared", m.chi_squared * (q * q + B * p * (B * p)), r);
	ENSURES("degrees of freedom", m.ndf == n - 2);
	ENSURES_EQ("p-value", m.p_value, stats::pvalue_chi_squared(m.chi_squared, m.ndf));
}
// larger models: given abscissae with one arbitrary, every ordinate
CONTRACT(model_large) {
	ABSTRACT1("pvalue_chi_squared"); NODIV0();
	BOUNDED("models of 5 to 9, 33, 65 points, " PROBES);
	const unsigned n = model_size(), kind = (unsigned) PICK("kind", 0, 2);
	const SV X = probe_data<SV>("x", n, (unsigned) PICK("pattern", 0, 2), PROBE_POS(n)), Y = probe_data<SV>("y", n, 4, n - 2);
	const real sg = REAL("sigma"); REQUIRES(sg > 1E-3); SV S(n), W(n, 1.0);
	for (unsigned i = 0; i < n; i++) { S[i] = (real) (int) (i % 4 + 1) / 2; if (kind == 1) W[i] = 1 / (sg * sg); if (kind == 2) W[i] = 1 / (S[i] * S[i]); }
	const Sums s = sums(X, Y, W); const real D = s.w * s.xx - s.x * s.x; REQUIRES(D > 1E-10);
	errno = 0; const linear_model m = kind == 0 ? linear_model(X, Y) : kind == 1 ? linear_model(X, Y, sg) : linear_model(X, Y, S); NO_ERROR();
	normal_equations(s, m.A, m.B); ENSURES("degrees of freedom", m.ndf == n - 2);
	real r = 0; for (unsigned i = 0; i < n; i++) { const real d = Y[i] - m.A - m.B * X[i]; r += d * d * W[i]; }
	if (kind == 0) ENSURES_EQ("error of the fit", m.err * m.err * (n - 2), r); else { covariance(s, m.covar_mat, 1); ENSURES_EQ("chi squared", m.chi_squared, r); ENSURES_EQ("p-value", m.p_value, stats::pvalue_chi_squared(m.chi_squared, m.ndf)); }
}
CONTRACT(wrong_sizes_large) {
	BOUNDED("two lengths among 10, 17, 100");
	static const unsigned N[] = { 10, 17, 100 }; const unsigned n = N[PICK("n", 0, 2)], k = N[PICK("m", 0, 2)]; REQUIRES(n != k);
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", k); real A = 0, B = 0, sB; mat2 C;
	errno = 0; ols_linear(X, Y, A, B); SOME_ERROR(); ENSURES_NAN("intercept", A); ENSURES_NAN("slope", B);
	errno = 0; wls_linear(X, X, Y, A, B, C); SOME_ERROR(); ENSURES_NAN("intercept", A); ENSURES_NAN("slope", B);
	errno = 0; ols_linear_orig(X, Y, 1.0, B, sB); SOME_ERROR(); ENSURES_NAN("slope", B);
	errno = 0; B = ols_linear_error(X, Y, 1.0, 1.0); SOME_ERROR(); ENSURES_NAN("error", B);
}
