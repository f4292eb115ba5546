// norms and distances of vectors of any length
#include "thvany.h"
struct D {	// ghost difference
	G a, b;
	size_t size() const { return a.n; }
	real operator[](size_t i) const { return a[i] - b[i]; }
};
static D operator-(const G& a, const G& b) { D d = {a, b}; return d; }
static real mag(real x) { return x < 0 ? -x : x; }
CONTRACT(unbounded_norms) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n);
	real s = 0, q = 0;
	for (size_t i = 0; i < n; i++) s += mag(X[i]);
	for (size_t i = 0; i < n; i++) q += X[i] * X[i];
	errno = 0;
	ENSURES_EQ("L1", algebra::l1_norm(X), s);
	ENSURES_EQ("L2", algebra::l2_norm(X), thv_sqrt(q));
	NO_ERROR();
}
CONTRACT(unbounded_max_norm) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n);
	real m = mag(X[0]), d = mag(X[0] - Y[0]);
	for (size_t i = 1; i < n; i++) if (m < mag(X[i])) m = mag(X[i]);
	for (size_t i = 1; i < n; i++) if (d < mag(X[i] - Y[i])) d = mag(X[i] - Y[i]);
	errno = 0;
	ENSURES_EQ("largest magnitude", algebra::linf_norm(X), m);
	ENSURES_EQ("chebyshev", algebra::chebyshev_distance(X, Y), d);
	NO_ERROR();
}
CONTRACT(unbounded_distances) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n);
	real s = 0, q = 0;
	for (size_t i = 0; i < n; i++) s += mag(X[i] - Y[i]);
	for (size_t i = 0; i < n; i++) q += (X[i] - Y[i]) * (X[i] - Y[i]);
	errno = 0;
	ENSURES_EQ("manhattan", algebra::manhattan_distance(X, Y), s);
	ENSURES_EQ("euclidean", algebra::euclidean_distance(X, Y), thv_sqrt(q));
	NO_ERROR();
}
CONTRACT(unbounded_cosine) {
	UNBOUNDED(); NODIV0();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n);
	real p = 0, a = 0, b = 0;
	for (size_t i = 0; i < n; i++) { p += X[i] * Y[i]; a += X[i] * X[i]; b += Y[i] * Y[i]; }
	REQUIRES(a > 0 && b > 0);
	errno = 0;
	ENSURES_EQ("cosine", algebra::cosine_distance(X, Y), 1 - p / (thv_sqrt(a) * thv_sqrt(b)));
	NO_ERROR();
}
CONTRACT(unbounded_canberra) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n);
	real s = 0;
	for (size_t i = 0; i < n; i++) if (mag(X[i]) + mag(Y[i]) != 0) s += mag(X[i] - Y[i]) / (mag(X[i]) + mag(Y[i]));
	errno = 0;
	ENSURES_EQ("canberra", algebra::canberra_distance(X, Y), s);
	NO_ERROR();
}
CONTRACT(unbounded_powers) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	const unsigned p = (unsigned) PICK("p", 1, 4);
	G X = any("x", n), Y = any("y", n);
	real s = 0, d = 0;
	for (size_t i = 0; i < n; i++) { real t = 1; for (unsigned k = 0; k < p; k++) t *= mag(X[i]); s += t; }
	for (size_t i = 0; i < n; i++) { real t = 1; for (unsigned k = 0; k < p; k++) t *= mag(X[i] - Y[i]); d += t; }
	errno = 0;
	ENSURES_EQ("Lp", algebra::lp_norm(X, p), root(s, p));
	ENSURES_EQ("Minkowski", algebra::minkowski_distance(X, Y, p), root(d, p));
	NO_ERROR();
}
CONTRACT(unbounded_discrete) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1), j = thv_size("j", 0);
	REQUIRES(j < n);
	G X = any("x", n), Y = any("y", n);
	errno = 0;
	const real d = algebra::discrete_distance(X, Y, 0.0);
	NO_ERROR();
	ENSURES("zero or one", d == 0 || d == 1);
	if (d == 0) ENSURES("equal", X[j] == Y[j]);
}
CONTRACT(unbounded_discrete_equal) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1);
	G X = any("x", n), Y = any("y", n);
	for (size_t i = 0; i < n; i++) REQUIRES(X[i] == Y[i]);
	ENSURES("equal vectors", algebra::discrete_distance(X, Y, 0.0) == 0);
}
CONTRACT(unbounded_sizes) {
	UNBOUNDED();
	const size_t n = thv_size("n", 1), m = thv_size("m", 1);
	REQUIRES(n != m);
	G X = any("x", n), Y = any("y", m);
	const int w = (int) PICK("which", 0, 6);
	errno = 0;
	real r = 0;
	if (w == 0) r = algebra::euclidean_distance(X, Y);
	if (w == 1) r = algebra::manhattan_distance(X, Y);
	if (w == 2) r = algebra::chebyshev_distance(X, Y);
	if (w == 3) r = algebra::minkowski_distance(X, Y, 3);
	if (w == 4) r = algebra::canberra_distance(X, Y);
	if (w == 5) r = algebra::cosine_distance(X, Y);
	if (w == 6) r = algebra::discrete_distance(X, Y);
	ENSURES_NAN("sizes differ", r);
	SOME_ERROR();
}
