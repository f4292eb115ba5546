#include "thvany.h"
static real Mean(const G& X) {
	real s = 0;
	for (size_t i = 0; i < X.n; i++) s += X[i];
	return s / X.n;
}
static real Cross(const G& X, const G& Y) {
	const real a = Mean(X), b = Mean(Y);
	real s = 0;
	for (size_t i = 0; i < X.n; i++) s += (X[i] - a) * (Y[i] - b);
	return s;
}
// the one-pass sums by their contracts, which unbounded_welford establishes
static real spec_tss(const G& X) { return Cross(X, X); }
static void spec_moments(const G& X, real& m, real& v, unsigned k) {
	if (X.n <= k) { errno = EINVAL; m = nan(); v = nan(); return; }
	m = Mean(X); v = Cross(X, X) / (X.n - k);
}
CONTRACT(unbounded_welford) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n);
	errno = 0;
	ENSURES_EQ("total sum of squares", stats::total_sum_squares(X), Cross(X, X));
	const unsigned k = (unsigned) PICK("k", 0, 7);
	real m, v;
	if (n > k) {
		stats::moments2(X, m, v, k);
		ENSURES_EQ("mean", m, Mean(X));
		ENSURES_EQ("variance", v * (n - k), Cross(X, X));
		if (k == 1) { stats::moments2(X, m, v); ENSURES_EQ("default constraint", v * (n - 1), Cross(X, X)); }
		NO_ERROR();
	} else {
		stats::moments2(X, m, v, k);
		ENSURES_NAN("mean", m); ENSURES_NAN("variance", v);
		SOME_ERROR();
	}
}
#define SPECS() SUM_BY_CONTRACT(); thv_spec("total_sum_squares", (void*) spec_tss, 0); thv_spec("moments2", (void*) spec_moments, 0)
CONTRACT(unbounded_variances) {
	UNBOUNDED();
	const size_t n = thv_size("n", 2), c = thv_size("k", 0);
	REQUIRES(c < n && c < 0xFFFFFFFF);
	const unsigned k = (unsigned) c;
	G X = any("x", n);
	SPECS();
	const real T = Cross(X, X), m = Mean(X);
	errno = 0;
	ENSURES_EQ("mean", stats::mean(X), m);
	ENSURES_EQ("variance", stats::variance(X, k), T / (n - k));
	ENSURES_EQ("default constraint", stats::variance(X), T / (n - 1));
	ENSURES_EQ("stdev", stats::stdev(X, k), thv_sqrt(T / (n - k)));
	ENSURES_EQ("stdev", stats::stdev(X), thv_sqrt(T / (n - 1)));
	ENSURES_EQ("stdom", stats::stdom(X), thv_sqrt(T / (n - 1) / n));
	NO_ERROR();
}
CONTRACT(unbounded_relative) {
	UNBOUNDED();
	const size_t n = thv_size("n", 2);
	G X = any("x", n);
	SPECS();
	const real T = Cross(X, X), m = Mean(X);
	REQUIRES(m > 1E-10 || m < -1E-10);
	errno = 0;
	ENSURES_EQ("relative error", stats::standard_relative_error(X), thv_sqrt(T / (n - 1) / n) / (m > 0 ? m : -m));
	NO_ERROR();
}
CONTRACT(unbounded_covariance) {
	UNBOUNDED();
	const size_t n = thv_size("n", 2), c = thv_size("k", 0);
	REQUIRES(c < n && c < 0xFFFFFFFF);
	const unsigned k = (unsigned) c;
	G X = any("x", n), Y = any("y", n);
	SPECS();
	errno = 0;
	const real a = Cross(X, X), b = Cross(Y, Y), ab = Cross(X, Y);
	ENSURES_EQ("covariance", stats::covariance(X, Y, k), ab / (n - k));
	ENSURES_EQ("default constraint", stats::covariance(X, Y), ab / (n - 1));
	NO_ERROR();
	REQUIRES(a > 1E-10 && b > 1E-10);
	NODIV0();
	ENSURES_EQ("correlation", stats::correlation_coefficient(X, Y) * thv_sqrt(a / (n - 1)) * thv_sqrt(b / (n - 1)), ab / (n - 1));
	NO_ERROR();
}
CONTRACT(unbounded_autocorrelation) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1), k = thv_size("lag", 0);
	G X = any("x", n);
	SPECS();
	errno = 0;
	if (k > n) { ENSURES_NAN("lag too large", stats::autocorrelation(X, (unsigned) k)); SOME_ERROR(); return; }
	const real m = Mean(X), d = Cross(X, X);
	real s = 0;
	for (size_t i = k; i < n; i++) s += (X[i] - m) * (X[i - k] - m);
	REQUIRES(d != 0);
	ENSURES_EQ("autocorrelation", stats::autocorrelation(X, (unsigned) k), s / d);
	NO_ERROR();
}
CONTRACT(unbounded_deviations) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n);
	SPECS();
	const real m = Mean(X);
	real s = 0, M = X[0], l = X[0];
	for (size_t i = 0; i < n; i++) s += X[i] > m ? X[i] - m : m - X[i];
	for (size_t i = 1; i < n; i++) { if (X[i] > M) M = X[i]; if (X[i] < l) l = X[i]; }
	errno = 0;
	ENSURES_EQ("mean absolute deviation", stats::absolute_deviation(X), s / n);
	ENSURES_EQ("range", stats::range(X), M - l);
	ENSURES_EQ("semidispersion", stats::semidispersion(X), (M - l) / 2);
	NO_ERROR();
}
CONTRACT(unbounded_higher_moments) {
	UNBOUNDED();
	const size_t n = thv_size("n", 2);
	G X = any("x", n);
	SPECS();
	const real m = Mean(X), v = Cross(X, X) / (n - 1);
	REQUIRES(v > 1E-10);
	NODIV0();
	real s3 = 0, s4 = 0;
	for (size_t i = 0; i < n; i++) { const real d = X[i] - m; s3 += d * d * d; s4 += d * d * d * d; }
	const real s = thv_sqrt(v);
	errno = 0;
	ENSURES_EQ("skewness", stats::skewness(X) * (s * v), s3 / n);
	ENSURES_EQ("kurtosis", (stats::kurtosis(X) + 3) * (v * v), s4 / n);
	NO_ERROR();
}
CONTRACT(unbounded_propagation) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G S = any("s", n), M = any("m", n);
	real q = 0, r = 0;
	for (size_t i = 0; i < n; i++) REQUIRES(M[i] != 0);
	for (size_t i = 0; i < n; i++) { q += S[i] * S[i]; r += (S[i] / M[i]) * (S[i] / M[i]); }
	errno = 0;
	ENSURES_EQ("propagate_sum", stats::propagate_sum(S), thv_sqrt(q));
	ENSURES_EQ("propagate_product", stats::propagate_product(S, M), thv_sqrt(r));
	NO_ERROR();
}
CONTRACT(unbounded_zero_mean) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1), z = thv_size("z", 0);
	REQUIRES(z < n);
	G S = any("s", n), M = any("m", n), X = any("x", n);
	REQUIRES(M[z] == 0);
	errno = 0; ENSURES_NAN("a mean of zero", stats::propagate_product(S, M)); SOME_ERROR();
	errno = 0; ENSURES_NAN("null sigma", stats::chi_square(X, S, M)); SOME_ERROR();
	errno = 0; ENSURES_NAN("null sigma", stats::chi_square_linear(X, S, M, REAL("A"), REAL("B"))); SOME_ERROR();
}
CONTRACT(unbounded_chi_square) {
	UNBOUNDED();
	const size_t n = thv_size("n", 0);
	G X = any("x", n), Y = any("y", n), S = any("s", n);
	const real A = REAL("A"), B = REAL("B");
	for (size_t i = 0; i < n; i++) REQUIRES(S[i] > 1E-10 || S[i] < -1E-10);
	real sc = 0, sl = 0;
	for (size_t i = 0; i < n; i++) {
		const real d = (X[i] - Y[i]) / S[i], e = (Y[i] - (A + B * X[i])) / S[i];
		sc += d * d; sl += e * e;
	}
	errno = 0;
	ENSURES_EQ("chi_square", stats::chi_square(X, Y, S), sc);
	ENSURES_EQ("chi_square_linear", stats::chi_square_linear(X, Y, S, A, B), sl);
	if (n > 2) ENSURES_EQ("reduced", stats::reduced_chi_square_linear(X, Y, S, A, B), sl / (n - 2));
	NO_ERROR();
	if (n <= 2) { ENSURES_NAN("no degrees of freedom", stats::reduced_chi_square_linear(X, Y, S, A, B)); SOME_ERROR(); }
}
CONTRACT(unbounded_wrong_sizes) {
	UNBOUNDED();
	G X = any("x", thv_size("n", 0)), Y = any("y", thv_size("m", 0));
	REQUIRES(X.n != Y.n);
	const real A = REAL("A"), B = REAL("B");
	errno = 0; ENSURES_NAN("covariance", stats::covariance(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("propagate_product", stats::propagate_product(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("chi_square", stats::chi_square(X, Y, X)); SOME_ERROR();
	errno = 0; ENSURES_NAN("chi_square", stats::chi_square(X, X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("chi_square_linear", stats::chi_square_linear(X, Y, X, A, B)); SOME_ERROR();
	errno = 0; ENSURES_NAN("chi_square_linear", stats::chi_square_linear(X, X, Y, A, B)); SOME_ERROR();
}
