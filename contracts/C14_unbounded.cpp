#include "thvany.h"
static size_t measure_sum(const G& X, size_t b, size_t e, size_t base) { return (e == 0 ? X.n : e) - b; }
CONTRACT(unbounded_pairwise) {
	UNBOUNDED();
	G X = any("x", thv_size("n", 0));
	thv_spec("sum_pairwise", (void*) spec_sum, (void*) measure_sum);
	size_t b = thv_size("begin", 0), e = thv_size("end", 0), base = thv_size("base", 0);
	REQUIRES(e <= X.n);
	REQUIRES(e == 0 ? b <= X.n : b <= e);
	errno = 0;
	ENSURES_EQ("pairwise sum", sum_pairwise(X, b, e, base), spec_sum(X, b, e, base));
	NO_ERROR();
}
CONTRACT(unbounded_sums) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n), Z = any("z", n);
	SUM_BY_CONTRACT();
	real s = 0, s2 = 0, sxy = 0, sxyz = 0, sx2y2 = 0, p = 1;
	for (size_t i = 0; i < n; i++) { s += X[i]; s2 += X[i] * X[i]; sxy += X[i] * Y[i]; sxyz += X[i] * Y[i] * Z[i]; sx2y2 += X[i] * X[i] * Y[i] * Y[i]; p *= X[i]; }
	errno = 0;
	ENSURES_EQ("sum", sum(X), s);
	ENSURES_EQ("sum of squares", sum_squares(X), s2);
	ENSURES_EQ("sum of products", product_sum(X, Y), sxy);
	ENSURES_EQ("sum of products of 3", product_sum(X, Y, Z), sxyz);
	ENSURES_EQ("sum of products of squares", product_sum_squares(X, Y), sx2y2);
	ENSURES_EQ("product", product(X), p);
	ENSURES_EQ("mean", arithmetic_mean(X), s / n);
	ENSURES_EQ("compensated", sum_compensated(X), s);
	NO_ERROR();
}
CONTRACT(unbounded_extremes) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n);
	real M = X[0], m = X[0];
	for (size_t i = 1; i < n; i++) { if (X[i] > M) M = X[i]; if (X[i] < m) m = X[i]; }
	errno = 0;
	ENSURES_EQ("max", max(X), M);
	ENSURES_EQ("min", min(X), m);
	NO_ERROR();
}
CONTRACT(unbounded_sizes) {
	UNBOUNDED();
	G X = any("x", thv_size("n", 0)), Y = any("y", thv_size("m", 0));
	REQUIRES(X.n != Y.n);
	SUM_BY_CONTRACT();
	errno = 0; ENSURES_NAN("product_sum", product_sum(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("quotient_sum", quotient_sum(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("product_sum_squares", product_sum_squares(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("product_sum of 3", product_sum(X, X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("product_sum of 3", product_sum(X, Y, X)); SOME_ERROR();
	errno = 0; ENSURES_NAN("weighted_mean", weighted_mean(X, Y)); SOME_ERROR();
}
CONTRACT(unbounded_quotients) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n);
	real q = 0, h = 0;
	for (size_t i = 0; i < n; i++) REQUIRES(Y[i] > 1E-10 || Y[i] < -1E-10);
	for (size_t i = 0; i < n; i++) { q += X[i] / Y[i]; h += 1 / Y[i]; }
	REQUIRES(h != 0);
	errno = 0;
	ENSURES_EQ("quotient_sum", quotient_sum(X, Y), q);
	ENSURES_EQ("harmonic mean", harmonic_mean(Y), n / h);
	NO_ERROR();
}
CONTRACT(unbounded_zero_quotients) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1), z = thv_size("z", 0);
	REQUIRES(z < n);
	G X = any("x", n), Y = any("y", n);
	REQUIRES(Y[z] == 0);
	errno = 0; ENSURES_NAN("quotient with a zero", quotient_sum(X, Y)); SOME_ERROR();
	errno = 0; ENSURES_NAN("harmonic mean with a zero", harmonic_mean(Y)); SOME_ERROR();
}
CONTRACT(unbounded_means) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), W = any("w", n);
	SUM_BY_CONTRACT();
	real s = 0, w = 0, s2 = 0;
	for (size_t i = 0; i < n; i++) { s += X[i] * W[i]; w += W[i]; s2 += X[i] * X[i]; }
	REQUIRES(w != 0);
	errno = 0;
	ENSURES_EQ("weighted mean", weighted_mean(X, W), s / w);
	ENSURES_EQ("quadratic mean", quadratic_mean(X), thv_sqrt(s2 / n));
	NO_ERROR();
}
