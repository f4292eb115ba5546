#include "thvlib.h"
typedef std::vector<real> SV;
typedef vec<real> DV;
#define SIZES "datasets of 0-5, 9, 17, 33, 65 (100) elements"
static unsigned some_size(const char* n) {
	static const unsigned S[] = { 0, 1, 2, 3, 4, 5, 9, 17, 33, 65, 100 };
	return S[PICK(n, 0, TIER(9, 10))];
}
template<class V> static V sym_data(const char* n, unsigned k) {
	V v;
	v.resize(k);
	for (unsigned i = 0; i < k; i++) v[i] = REAL(n);
	return v;
}
// definitions
template<class V> static real Mean(const V& X) {
	real s = 0;
	for (unsigned i = 0; i < X.size(); i++) s += X[i];
	return s / X.size();
}
template<class V, class W> static real Cross(const V& X, const W& Y) {
	const real a = Mean(X), b = Mean(Y);
	real s = 0;
	for (unsigned i = 0; i < X.size(); i++) s += (X[i] - a) * (Y[i] - b);
	return s;
}
template<class V> static void second_moments(const V& X) {
	const unsigned n = X.size();
	if (n == 0) {
		errno = 0; ENSURES_NAN("mean", stats::mean(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("total_sum_squares", stats::total_sum_squares(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("range", stats::range(X)); SOME_ERROR();
		errno = 0; ENSURES_NAN("propagate_sum", stats::propagate_sum(X)); SOME_ERROR();
	} else {
		errno = 0;
		ENSURES_EQ("mean", stats::mean(X), Mean(X));
		ENSURES_EQ("total_sum_squares", stats::total_sum_squares(X), Cross(X, X));
		NO_ERROR();
	}
	for (unsigned k = 0; k < 4; k++) {
		real m, v;
		errno = 0;
		stats::moments2(X, m, v, k);
		const int e1 = errno;
		errno = 0;
		const real w = stats::variance(X, k);
		const int e2 = errno;
		if (n <= k) {
			ENSURES_NAN("moments2 mean", m); ENSURES_NAN("moments2 variance", v); ENSURES_NAN("variance", w);
			ENSURES("errno is set", e1 && e2);
			continue;
		}
		ENSURES("no error", !e1 && !e2);
		ENSURES_EQ("moments2 mean", m, Mean(X));
		ENSURES_EQ("moments2 variance", v, Cross(X, X) / (n - k));
		ENSURES_EQ("variance", w, Cross(X, X) / (n - k));
	}
	if (n > 1) {
		real m, v;
		stats::moments2(X, m, v);
		ENSURES_EQ("default constraint", v, Cross(X, X) / (n - 1));
		ENSURES_EQ("default constraint", stats::variance(X), Cross(X, X) / (n - 1));
	}
}
CONTRACT(moments_std) { BOUNDED(SIZES); second_moments(sym_data<SV>("x", some_size("n"))); }
CONTRACT(moments_vec) { BOUNDED(SIZES); second_moments(sym_data<DV>("x", some_size("n"))); }
CONTRACT(moments_fixed) { second_moments(sym_vec<3>("x")); }
CONTRACT(deviations) {
	const unsigned n = (unsigned) PICK("n", 2, 5);
	BOUNDED("datasets of 2 to 5 elements");
	const SV X = sym_data<SV>("x", n);
	const real T = Cross(X, X);
	const unsigned k = (unsigned) PICK("k", 0, 2);
	errno = 0;
	if (n > k) ENSURES_EQ("stdev", stats::stdev(X, k), thv_sqrt(T / (n - k)));
	ENSURES_EQ("stdev", stats::stdev(X), thv_sqrt(T / (n - 1)));
	ENSURES_EQ("stdom", stats::stdom(X), thv_sqrt(T / (n - 1) / n));
	NO_ERROR();
	const real m = Mean(X);
	REQUIRES(m == 0 || m > 1E-10 || m < -1E-10);
	const real r = stats::standard_relative_error(X);
	if (m == 0) { ENSURES_NAN("relative error of mean zero", r); SOME_ERROR(); }
	else {
		ENSURES_EQ("relative error", r * r * (m * m), T / (n - 1) / n);
		ENSURES("not negative", r >= 0);
		NO_ERROR();
	}
}
CONTRACT(ranges) {
	const unsigned n = (unsigned) PICK("n", 1, 4);
	BOUNDED("datasets of up to 4 elements");
	const SV X = sym_data<SV>("x", n);
	real M = X[0], m = X[0];
	for (unsigned i = 1; i < n; i++) { if (X[i] > M) M = X[i]; if (X[i] < m) m = X[i]; }
	ENSURES_EQ("range", stats::range(X), M - m);
	ENSURES_EQ("semidispersion", stats::semidispersion(X), (M - m) / 2);
}
CONTRACT(covariances) {
	const unsigned n = some_size("n");
	BOUNDED(SIZES);
	const SV X = sym_data<SV>("x", n);
	const DV Y = sym_data<DV>("y", n);
	for (unsigned k = 0; k < 3; k++) {
		errno = 0;
		const real c = stats::covariance(X, Y, k);
		if (n <= k) { ENSURES_NAN("too few points", c); SOME_ERROR(); }
		else { ENSURES_EQ("covariance", c, Cross(X, Y) / (n - k)); NO_ERROR(); }
	}
	errno = 0;
	if (n > 1) ENSURES_EQ("default constraint", stats::covariance(X, Y), Cross(X, Y) / (n - 1));
	const SV Z = sym_data<SV>("z", n + 1);
	ENSURES_NAN("different sizes", stats::covariance(X, Z)); SOME_ERROR();
}
CONTRACT(correlation) {
	const unsigned n = (unsigned) PICK("n", 2, 4);
	BOUNDED("datasets of 2 to 4 elements");
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n);
	const real a = Cross(X, X), b = Cross(Y, Y), c = Cross(X, Y);
	REQUIRES(a > 1E-10 && b > 1E-10);
	NODIV0();
	ENSURES_EQ("correlation", stats::correlation_coefficient(X, Y) * thv_sqrt(a / (n - 1)) * thv_sqrt(b / (n - 1)), c / (n - 1));
	NO_ERROR();
}
CONTRACT(autocorrelations) {
	const unsigned n = PICK_OR("n", 0, 9, 17, 40), k = PICK_OR("lag", 0, 10, 16, 17, 18, 33, 39, 40, 41);
	REQUIRES(k <= n + 1);
	BOUNDED("datasets of up to 9, 17 and 40 elements, every lag up to 10, 16, 17, 33 ...");
	const SV X = sym_data<SV>("x", n);
	errno = 0;
	if (n == 0 || k > n) { ENSURES_NAN("lag too large", stats::autocorrelation(X, k)); SOME_ERROR(); return; }
	const real m = Mean(X), d = Cross(X, X);
	real s = 0;
	for (unsigned i = k; i < n; i++) s += (X[i] - m) * (X[i - k] - m);
	REQUIRES(d != 0);
	ENSURES_EQ("autocorrelation", stats::autocorrelation(X, k), s / d);
	if (k == 1) ENSURES_EQ("default lag", stats::autocorrelation(X), s / d);
	NO_ERROR();
}
CONTRACT(absolute_deviations) {
	const unsigned n = (unsigned) PICK("n", 1, 4);
	BOUNDED("datasets of up to 4 elements");
	const SV X = sym_data<SV>("x", n);
	const real m = Mean(X);
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += X[i] > m ? X[i] - m : m - X[i];
	ENSURES_EQ("mean absolute deviation", stats::absolute_deviation(X), s / n);
}
CONTRACT(higher_moments) {
	const unsigned n = (unsigned) PICK("n", 2, TIER(3, 4));
	BOUNDED("datasets of up to 3 (4) elements");
	const SV X = sym_data<SV>("x", n);
	const real m = Mean(X), T = Cross(X, X), v = T / (n - 1);
	REQUIRES(v > 1E-10);
	NODIV0();
	real s3 = 0, s4 = 0;
	for (unsigned i = 0; i < n; i++) { const real d = X[i] - m; s3 += d * d * d; s4 += d * d * d * d; }
	const real s = thv_sqrt(v);
	ENSURES_EQ("skewness", stats::skewness(X) * (s * v), s3 / n);
	ENSURES_EQ("kurtosis", (stats::kurtosis(X) + 3) * (v * v), s4 / n);
	const SV Z = stats::normalize_z_score(X);
	ENSURES("size", Z.size() == n);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("standardized", Z[i] * s, X[i] - m);
	NO_ERROR();
}
CONTRACT(scores) {
	const real x = REAL("x"), m = REAL("m"), s = REAL("s");
	REQUIRES(s != 0);
	ENSURES_EQ("z_score", stats::z_score(x, m, s), (x - m) / s);
}
CONTRACT(propagation) {
	const unsigned n = (unsigned) PICK("n", 1, TIER(3, 4));
	BOUNDED("up to 3 (4) quantities");
	const SV S = sym_data<SV>("s", n);
	const DV M = sym_data<DV>("m", n);
	real q = 0;
	bool zero = false;
	for (unsigned i = 0; i < n; i++) { q += S[i] * S[i]; if (M[i] == 0) zero = true; }
	errno = 0;
	ENSURES_EQ("propagate_sum", stats::propagate_sum(S), thv_sqrt(q));
	NO_ERROR();
	const real p = stats::propagate_product(S, M);
	if (zero) { ENSURES_NAN("mean of zero", p); SOME_ERROR(); }
	else {
		real r = 0;
		for (unsigned i = 0; i < n; i++) r += (S[i] / M[i]) * (S[i] / M[i]);
		ENSURES_EQ("propagate_product", p * p, r);
		ENSURES("not negative", p >= 0);
		NO_ERROR();
	}
	errno = 0;
	ENSURES_NAN("different sizes", stats::propagate_product(S, sym_data<DV>("m", n + 1)));
	SOME_ERROR();
}
CONTRACT(chi_squares) {
	const unsigned n = (unsigned) PICK("n", 0, TIER(3, 4));
	BOUNDED("up to 3 (4) points");
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n), S = sym_data<SV>("s", n);
	const real A = REAL("A"), B = REAL("B");
	bool zero = false;
	for (unsigned i = 0; i < n; i++) {
		REQUIRES(S[i] == 0 || S[i] > 1E-10 || S[i] < -1E-10);
		if (S[i] == 0) zero = true;
	}
	errno = 0;
	const real c = stats::chi_square(X, Y, S); const int ec = errno;
	errno = 0;
	const real l = stats::chi_square_linear(X, Y, S, A, B); const int el = errno;
	errno = 0;
	const real r = stats::reduced_chi_square_linear(X, Y, S, A, B); const int er = errno;
	if (n <= 2) { ENSURES_NAN("no degrees of freedom", r); ENSURES("errno is set", er); }
	if (zero) {
		ENSURES_NAN("null sigma", c); ENSURES_NAN("null sigma", l); ENSURES_NAN("null sigma", r);
		ENSURES("errno is set", ec && el && er);
		return;
	}
	real sc = 0, sl = 0;
	for (unsigned i = 0; i < n; i++) {
		const real d = (X[i] - Y[i]) / S[i], e = (Y[i] - (A + B * X[i])) / S[i];
		sc += d * d; sl += e * e;
	}
	ENSURES_EQ("chi_square", c, sc);
	ENSURES_EQ("chi_square_linear", l, sl);
	ENSURES("no error", !ec && !el);
	if (n > 2) { ENSURES_EQ("reduced", r, sl / (n - 2)); ENSURES("no error", !er); }
	const SV Z = sym_data<SV>("z", n + 1);
	switch (PICK("which", 0, 5)) {
		case 0: errno = 0; ENSURES_NAN("sizes", stats::chi_square(X, Y, Z)); break;
		case 1: errno = 0; ENSURES_NAN("sizes", stats::chi_square(X, Z, S)); break;
		case 2: errno = 0; ENSURES_NAN("sizes", stats::chi_square(Z, Y, S)); break;
		case 3: errno = 0; ENSURES_NAN("sizes", stats::chi_square_linear(X, Y, Z, A, B)); break;
		case 4: errno = 0; ENSURES_NAN("sizes", stats::chi_square_linear(X, Z, S, A, B)); break;
		default: errno = 0; ENSURES_NAN("sizes", stats::chi_square_linear(Z, Y, S, A, B)); break;
	}
	SOME_ERROR();
}
CONTRACT(pvalue_domain) {
	errno = 0;
	ENSURES_NAN("no degrees of freedom", stats::pvalue_chi_squared(REAL("c"), 0));
	SOME_ERROR();
}
// error propagation is the quadratic form of the gradient
static const real K = 3;
template<class V> static auto g(const V& x) -> decltype(x[0] * x[1]) { return x[0] * x[1] * K + x[0] * x[0] - x[1] * 2.0; }
CONTRACT(covariance_matrix) {
	const unsigned m = (unsigned) PICK("vars", 1, 5), n = PICK_OR("n", 2, 4, 17);
	BOUNDED("up to 5 variables with up to 4 and 17 points");
	std::vector<DV> v;
	for (unsigned i = 0; i < m; i++) v.push_back(sym_data<DV>("x", n));
	const mat<real> C = stats::covar_mat(v);
	ENSURES("size", C.rows() == m && C.cols() == m);
	for (unsigned i = 0; i < m; i++) for (unsigned j = 0; j < m; j++) ENSURES_EQ("covariance", C(i, j), Cross(v[i], v[j]) / (n - 1));
}
CONTRACT(error_propagation) {
	const vec<real, 2> x = sym_vec<2>("x"), dx = sym_vec<2>("d");
	const real a = K * x[1] + 2 * x[0], b = K * x[0] - 2;
	auto f = [](autodiff::dvec_t<2> v) { return g(v); };
	ENSURES_EQ("independent", stats::error_propagation<2>(f, x, dx), thv_sqrt(a * dx[0] * (a * dx[0]) + b * dx[1] * (b * dx[1])));
	const mat<real, 2, 2> C = sym_mat<2, 2>("c");
	const real q = a * a * C(0, 0) + a * b * C(0, 1) + b * a * C(1, 0) + b * b * C(1, 1);
	REQUIRES(q > 0);
	errno = 0;
	ENSURES_EQ("covariance", stats::error_propagation<2>(f, x, C), thv_sqrt(q));
	NO_ERROR();
	const mat<real> D = sym_dmat("c", 3, 2), E = sym_dmat("c", 2, 3);
	errno = 0; ENSURES_NAN("rows", stats::error_propagation<2>(f, x, D)); SOME_ERROR();
	errno = 0; ENSURES_NAN("columns", stats::error_propagation<2>(f, x, E)); SOME_ERROR();
}
CONTRACT(error_propagation_data) {
	const unsigned n = (unsigned) PICK("n", 2, 3);
	BOUNDED("2 variables of 2 or 3 points");
	std::vector<DV> v;
	v.push_back(sym_data<DV>("x", n)); v.push_back(sym_data<DV>("y", n));
	const real x = Mean(v[0]), y = Mean(v[1]), a = K * y + 2 * x, b = K * x - 2;
	const real q = (a * a * Cross(v[0], v[0]) + 2 * a * b * Cross(v[0], v[1]) + b * b * Cross(v[1], v[1])) / (n - 1);
	REQUIRES(q > 0);
	errno = 0;
	ENSURES_EQ("covariance of the data", stats::error_propagation<2>([](autodiff::dvec_t<2> w) { return g(w); }, v), thv_sqrt(q));
	NO_ERROR();
}
// larger data sets
#define LARGE "6 to 10, 33, 100 elements, " PROBES
static unsigned large_size() { return PICK_OR("n", 6, 10, 33, 100); }
CONTRACT(deviations_large) {
	BOUNDED(LARGE);
	const unsigned n = large_size(); const SV X = probe_data<SV>("x", n, (unsigned) PICK("pattern", 0, 4), PROBE_POS(n));
	const real T = Cross(X, X), m = Mean(X); REQUIRES(m > 1E-10 || m < -1E-10);
	errno = 0;
	const real d = stats::stdev(X), d0 = stats::stdev(X, 0), d3 = stats::stdev(X, 3), o = stats::stdom(X), r = stats::standard_relative_error(X);
	ENSURES_EQ("stdev", d * d * (n - 1), T); ENSURES_EQ("stdev", d0 * d0 * n, T); ENSURES_EQ("stdev", d3 * d3 * (n - 3), T); ENSURES_EQ("stdom", o * o * (n - 1) * n, T); ENSURES_EQ("relative error", r * r * (m * m) * (n - 1) * n, T);
	ENSURES("not negative", d >= 0 && d0 >= 0 && d3 >= 0 && o >= 0 && r >= 0);
	NO_ERROR();
}
CONTRACT(ranges_large) {
	BOUNDED(LARGE);
	const unsigned n = large_size(), p = PROBE_POS(n), k = (unsigned) PICK("pattern", 0, 4); const SV X = band_data<SV>("x", n, k, p);
	real M = X[p], m = X[p]; for (unsigned i = 0; i < n; i++) { if (X[i] > M) M = X[i]; if (X[i] < m) m = X[i]; }
	ENSURES_EQ("range", stats::range(X), M - m); ENSURES_EQ("semidispersion", stats::semidispersion(X), (M - m) / 2);
	const real a = Mean(X); real s = 0; for (unsigned i = 0; i < n; i++) s += X[i] > a ? X[i] - a : a - X[i];
	if (n < 10) ENSURES_EQ("mean absolute deviation", stats::absolute_deviation(X), s / n);
}
CONTRACT(correlation_large) {
	BOUNDED("5 to 9, 33, 100 elements, " PROBES);
	const unsigned n = PICK_OR("n", 5, 9, 33, 100), k = 2 * (unsigned) PICK("pattern", 0, 2);
	const SV X = probe_data<SV>("x", n, k, PROBE_POS(n)), Y = probe_data<SV>("y", n, k == 4 ? 2 : 4, n);
	const real a = Cross(X, X), b = Cross(Y, Y), c = Cross(X, Y); NODIV0();
	const real r = stats::correlation_coefficient(X, Y);
	ENSURES_EQ("correlation", r * r * a * b, c * c); ENSURES("sign", r * c >= 0);
}
CONTRACT(higher_moments_large) {
	BOUNDED(LARGE);
	const unsigned n = large_size(); const SV X = probe_data<SV>("x", n, (unsigned) PICK("pattern", 0, 4), PROBE_POS(n));
	const real m = Mean(X), T = Cross(X, X), v = T / (n - 1); REQUIRES(v > 1E-10); NODIV0();
	real s3 = 0, s4 = 0; for (unsigned i = 0; i < n; i++) { const real d = X[i] - m; s3 += d * d * d; s4 += d * d * d * d; }
	const real w = stats::skewness(X), s = thv_sqrt(v);
	ENSURES_EQ("skewness", w * (s * v), s3 / n);
	ENSURES_EQ("kurtosis", (stats::kurtosis(X) + 3) * (v * v), s4 / n);
	const SV Z = stats::normalize_z_score(X); ENSURES("size", Z.size() == n);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("standardized", Z[i] * s, X[i] - m);
}
CONTRACT(propagation_large) {
	BOUNDED("4 to 12, 33, 100 quantities");
	const unsigned n = PICK_OR("n", 4, 12, 33, 100), p = PROBE_POS(n);
	const SV S = sym_data<SV>("s", n); const DV M = probe_data<DV>("m", n, (unsigned) PICK("pattern", 0, 4), p);
	real q = 0, r = 0; for (unsigned i = 0; i < n; i++) q += S[i] * S[i];
	errno = 0; const real a = stats::propagate_sum(S); ENSURES_EQ("propagate_sum", a * a, q); ENSURES("not negative", a >= 0); NO_ERROR();
	const real b = stats::propagate_product(S, M);
	if (M[p] == 0) { ENSURES_NAN("mean of zero", b); SOME_ERROR(); return; }
	for (unsigned i = 0; i < n; i++) r += (S[i] / M[i]) * (S[i] / M[i]);
	ENSURES_EQ("propagate_product", b * b, r); ENSURES("not negative", b >= 0); NO_ERROR();
}
CONTRACT(chi_squares_large) {
	BOUNDED("4 to 12, 33, 100 points");
	const unsigned n = PICK_OR("n", 4, 12, 33, 100), p = PROBE_POS(n);
	const SV X = sym_data<SV>("x", n), Y = sym_data<SV>("y", n), S = probe_data<SV>("s", n, (unsigned) PICK("pattern", 0, 4), p); const real A = REAL("A"), B = REAL("B");
	REQUIRES(S[p] == 0 || S[p] > 1E-10 || S[p] < -1E-10);
	errno = 0; const real c = stats::chi_square(X, Y, S); const int ec = errno;
	errno = 0; const real l = stats::chi_square_linear(X, Y, S, A, B); const int el = errno;
	errno = 0; const real r = stats::reduced_chi_square_linear(X, Y, S, A, B); const int er = errno;
	if (S[p] == 0) { ENSURES("errno is set", ec && el && er); ENSURES_NAN("null sigma", c); ENSURES_NAN("null sigma", l); ENSURES_NAN("null sigma", r); return; }
	real sc = 0, sl = 0; for (unsigned i = 0; i < n; i++) { const real d = (X[i] - Y[i]) / S[i], e = (Y[i] - (A + B * X[i])) / S[i]; sc += d * d; sl += e * e; }
	ENSURES_EQ("chi_square", c, sc); ENSURES_EQ("chi_square_linear", l, sl); ENSURES_EQ("reduced", r, sl / (n - 2)); ENSURES("no error", !ec && !el && !er);
}
