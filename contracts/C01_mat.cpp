// Matrix arithmetic: every element of every operation, fixed and dynamic size, square and rectangular.
#include "thvlib.h"

#define ALLM(n, m, label, val, expr) { const auto& v_ = (val); ENSURES(label ": size", v_.rows() == (n) && v_.cols() == (m)); \
	for (unsigned i = 0; i < (n); i++) for (unsigned j = 0; j < (m); j++) ENSURES_EQ(label, v_(i, j), (expr)); }
#define ALLV(n, label, val, expr) { const auto& v_ = (val); ENSURES(label ": size", v_.size() == (n)); for (unsigned i = 0; i < (n); i++) ENSURES_EQ(label, v_[i], (expr)); }
template<typename M> static real mulelem(const M& A, const M& B, unsigned i, unsigned j) { real s = 0; for (unsigned k = 0; k < A.cols(); k++) s += A(i, k) * B(k, j); return s; }
template<typename M1, typename M2> static real prod(const M1& A, const M2& B, unsigned i, unsigned j) { real s = 0; for (unsigned k = 0; k < A.cols(); k++) s += A(i, k) * B(k, j); return s; }
template<typename M1, typename V> static real apply(const M1& A, const V& v, unsigned i) { real s = 0; for (unsigned k = 0; k < A.cols(); k++) s += A(i, k) * v[k]; return s; }
template<typename V, typename M1> static real applyt(const V& v, const M1& A, unsigned j) { real s = 0; for (unsigned k = 0; k < A.rows(); k++) s += A(k, j) * v[k]; return s; }

template<unsigned N, unsigned K> static void linear_ops() {
	const mat<real, N, K> A = sym_mat<N, K>("A"), B = sym_mat<N, K>("B");
	const real s = REAL("s"), t = REAL("t");
	errno = 0;
	ALLM(N, K, "A + B", A + B, A(i, j) + B(i, j));
	ALLM(N, K, "A - B", A - B, A(i, j) - B(i, j));
	ALLM(N, K, "A * s", A * s, A(i, j) * s);
	ALLM(N, K, "s * A", s * A, A(i, j) * s);
	mat<real, N, K> R = A; auto p = &(R += B); ENSURES("returns itself", p == &R); ALLM(N, K, "A += B", R, A(i, j) + B(i, j));
	R = A; p = &(R -= B); ENSURES("returns itself", p == &R); ALLM(N, K, "A -= B", R, A(i, j) - B(i, j));
	R = A; p = &(R *= s); ENSURES("returns itself", p == &R); ALLM(N, K, "A *= s", R, A(i, j) * s);
	R = A; algebra::mat_lincomb(s, R, t, B); ALLM(N, K, "s A + t B in place", R, s * A(i, j) + t * B(i, j));
	algebra::mat_lincomb(R, s, A, t, B); ALLM(N, K, "s A + t B", R, s * A(i, j) + t * B(i, j));
	algebra::mat_sum(R, A, B); ALLM(N, K, "mat_sum", R, A(i, j) + B(i, j));
	algebra::mat_diff(R, A, B); ALLM(N, K, "mat_diff", R, A(i, j) - B(i, j));
	algebra::mat_scalmul(R, s, A); ALLM(N, K, "mat_scalmul", R, s * A(i, j));
	algebra::mat_copy(R, A); ALLM(N, K, "mat_copy", R, A(i, j));
	algebra::mat_zeroes(R); ALLM(N, K, "mat_zeroes", R, 0.0);
	algebra::make_identity(R); ALLM(N, K, "make_identity", R, i == j ? 1.0 : 0.0);
	mat<real, K, N> T; algebra::transpose(T, A); ALLM(K, N, "transpose into", T, A(j, i));
	mat<real, K, N> U = algebra::transpose<mat<real, N, K>, mat<real, K, N>>(A); ALLM(K, N, "transpose", U, A(j, i));
	real tr = 0, dp = 1; for (unsigned i = 0; i < N && i < K; i++) { tr += A(i, i); dp *= A(i, i); }
	ENSURES_EQ("trace", algebra::trace(A), tr); ENSURES_EQ("diagonal product", algebra::diagonal_product(A), dp);
	R = A; algebra::mat_shift_diagonal(R, s); ALLM(N, K, "shift diagonal", R, A(i, j) + (i == j ? s : 0.0));
	const vec<real, K> v = sym_vec<K>("v"); const vec<real, N> w = sym_vec<N>("w");
	ALLV(N, "A * v", A * v, apply(A, v, i));
	ALLV(N, "transform", A.transform(v), apply(A, v, i));
	vec<real, N> r; algebra::transform(r, A, v); ALLV(N, "algebra::transform", r, apply(A, v, i));
	ALLV(K, "w * A", operator*(w, A), applyt(w, A, i));
	ENSURES("rows, cols, size", A.rows() == N && A.cols() == K && A.size() == N * K);
	NO_ERROR();
}
CONTRACT(mat22_linear_operations) { linear_ops<2, 2>(); }
CONTRACT(mat33_linear_operations) { linear_ops<3, 3>(); }
CONTRACT(mat44_linear_operations) { linear_ops<4, 4>(); }
CONTRACT(mat23_linear_operations) { linear_ops<2, 3>(); }
CONTRACT(mat42_linear_operations) { linear_ops<4, 2>(); }
CONTRACT(mat13_linear_operations) { linear_ops<1, 3>(); }
CONTRACT(mat57_linear_operations) { linear_ops<5, 7>(); }
CONTRACT(mat88_linear_operations) { linear_ops<8, 8>(); }
CONTRACT(mat16_3_linear_operations) { linear_ops<16, 3>(); }

template<unsigned N, unsigned K, unsigned M> static void products() {
	const mat<real, N, K> A = sym_mat<N, K>("A"); const mat<real, K, M> B = sym_mat<K, M>("B");
	errno = 0;
	ALLM(N, M, "A * B", A * B, prod(A, B, i, j));
	ALLM(N, M, "A.mul(B)", A.mul(B), prod(A, B, i, j));
	mat<real, N, M> R = sym_mat<N, M>("R"); algebra::mat_mul(R, A, B); ALLM(N, M, "mat_mul into", R, prod(A, B, i, j));
	ALLM(N, M, "mat_mul", (algebra::mat_mul<mat<real, N, K>, mat<real, K, M>, mat<real, N, M>>(A, B)), prod(A, B, i, j));
	mat<real, K, N> At; mat<real, M, K> Bt; algebra::transpose(At, A); algebra::transpose(Bt, B);
	ALLM(N, M, "mat_transpose_mul", (algebra::mat_transpose_mul<mat<real, K, N>, mat<real, K, M>, mat<real, N, M>>(At, B)), prod(A, B, i, j));
	ALLM(N, M, "mat_mul_transpose", (algebra::mat_mul_transpose<mat<real, N, K>, mat<real, M, K>, mat<real, N, M>>(A, Bt)), prod(A, B, i, j));
	NO_ERROR();
}
CONTRACT(products_333) { products<3, 3, 3>(); }
CONTRACT(products_232) { products<2, 3, 2>(); }
CONTRACT(products_341) { products<3, 4, 1>(); }
CONTRACT(products_123) { products<1, 2, 3>(); }
CONTRACT(products_444) { products<4, 4, 4>(); }
CONTRACT(products_567) { products<5, 6, 7>(); }
CONTRACT(products_2_16_3) { products<2, 16, 3>(); }
CONTRACT(products_999) { products<9, 9, 9>(); }

CONTRACT(mat_square_in_place) {
	const mat<real, 3, 3> A = sym_mat<3, 3>("A"), B = sym_mat<3, 3>("B");
	errno = 0;
	mat<real, 3, 3> R = A; R *= B; ALLM(3, 3, "A *= B", R, prod(A, B, i, j));
	R = A; R *= R; ALLM(3, 3, "A *= A", R, prod(A, A, i, j));
	R = A; R += R; ALLM(3, 3, "A += A", R, 2 * A(i, j)); R = A; R -= R; ALLM(3, 3, "A -= A", R, 0.0);
	R = A; R.transpose(); ALLM(3, 3, "transpose in place", R, A(j, i));
	vec<real, 3> v = sym_vec<3>("v"), w = v; algebra::apply_transform(A, w); ALLV(3, "apply_transform", w, apply(A, v, i));
	ALLV(3, "algebra::transform", algebra::transform(A, v), apply(A, v, i));
	unsigned a = PICK("a", 0, 2), b = PICK("b", 0, 2);
	R = A; algebra::mat_swap_rows(R, a, b); ALLM(3, 3, "swap rows", R, A(i == a ? b : i == b ? a : i, j));
	R = A; algebra::mat_swap_cols(R, a, b); ALLM(3, 3, "swap columns", R, A(i, j == a ? b : j == b ? a : j));
	mat<real, 2, 3> C = sym_mat<2, 3>("C"), D = C; algebra::mat_swap_cols(D, a, b); ALLM(2, 3, "swap columns of a rectangular matrix", D, C(i, j == a ? b : j == b ? a : j));
	mat<real, 4, 3> E = sym_mat<4, 3>("E"), F = E; algebra::mat_swap_cols(F, a, b); ALLM(4, 3, "swap columns of a rectangular matrix", F, E(i, j == a ? b : j == b ? a : j));
	NO_ERROR();
	errno = 0; R = A; algebra::mat_swap_rows(R, 3, a); SOME_ERROR(); errno = 0; R = A; algebra::mat_swap_rows(R, a, 3); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
	errno = 0; R = A; algebra::mat_swap_cols(R, 3, a); SOME_ERROR(); errno = 0; R = A; algebra::mat_swap_cols(R, a, 3); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
}
CONTRACT(mat_scalar_division) {
	const mat<real, 2, 3> A = sym_mat<2, 3>("A"); const mat<real> D = sym_dmat("D", 2, 3); real s = REAL("s");
	REQUIRES(s > 1E-10 || s < -1E-10);
	errno = 0;
	ALLM(2, 3, "A / s", A / s, A(i, j) / s); mat<real, 2, 3> R = A; R /= s; ALLM(2, 3, "A /= s", R, A(i, j) / s);
	ALLM(2, 3, "A / s", D / s, D(i, j) / s); mat<real> S = D; S /= s; ALLM(2, 3, "A /= s", S, D(i, j) / s);
	NO_ERROR();
	errno = 0; R = A / 0.0; SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); ENSURES_NAN("NaN", R(1, 1));
	errno = 0; R /= 0.0; SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
	errno = 0; S = D / 0.0; SOME_ERROR(); ENSURES_NAN("NaN", S(0, 0)); errno = 0; S /= 0.0; SOME_ERROR(); ENSURES_NAN("NaN", S(0, 0));
}
CONTRACT(mat_equality) {
	const mat<real, 2, 3> A = sym_mat<2, 3>("A"); mat<real, 2, 3> B = A; real e = REAL("e"), tol = REAL("tol");
	unsigned i = PICK("i", 0, 1), j = PICK("j", 0, 2);
	ENSURES("reflexive", A == B && !(A != B));
	B(i, j) = A(i, j) + e; REQUIRES(tol > 0);
	bool close = !(e > tol) && !(-e > tol);
	ENSURES("mat_equals is |difference| <= tolerance", algebra::mat_equals(A, B, tol) == close);
	REQUIRES(e > 1E-10 || e < -1E-10);
	ENSURES("an element that differs is seen", !(A == B) && A != B);
	B(i, j) = nan(); ENSURES("NaN is not equal", !(A == B));
	mat<real> C(2, 3), D(3, 2), E(2, 2); ENSURES("different sizes are not equal", !(C == D) && !(C == E) && C != D);
}
CONTRACT(mat_constructors) {
	real s = REAL("s"), t = REAL("t"), u = REAL("u"), v = REAL("v");
	errno = 0;
	mat<real, 2, 3> Z; ALLM(2, 3, "default is zero", Z, 0.0);
	mat<real, 2, 2> L{{s, t}, {u, v}}; ENSURES_EQ("(0,0)", L(0, 0), s); ENSURES_EQ("(0,1)", L(0, 1), t); ENSURES_EQ("(1,0)", L(1, 0), u); ENSURES_EQ("(1,1)", L(1, 1), v);
	mat<real> M{{s, t, u}, {v, s, t}}; ENSURES("size", M.rows() == 2 && M.cols() == 3);
	ENSURES_EQ("(0,0)", M(0, 0), s); ENSURES_EQ("(0,1)", M(0, 1), t); ENSURES_EQ("(0,2)", M(0, 2), u); ENSURES_EQ("(1,0)", M(1, 0), v); ENSURES_EQ("(1,1)", M(1, 1), s); ENSURES_EQ("(1,2)", M(1, 2), t);
	mat<real, 3, 3> D(s), E(s, 3, 3); ALLM(3, 3, "diagonal", D, i == j ? s : 0.0); ALLM(3, 3, "diagonal", E, i == j ? s : 0.0);
	mat<real, 2, 3> F(s); ALLM(2, 3, "rectangular diagonal", F, i == j ? s : 0.0);
	mat<real> G(s, 2, 3), H(2, 3); ALLM(2, 3, "dynamic diagonal", G, i == j ? s : 0.0); ALLM(2, 3, "dynamic zero", H, 0.0);
	mat<real> J; J = L; ALLM(2, 2, "dynamic from fixed", J, L(i, j)); mat<real, 2, 2> K; K = J; ALLM(2, 2, "fixed from dynamic", K, L(i, j)); mat<real, 2, 2> N(J); ALLM(2, 2, "fixed from dynamic", N, L(i, j));
	NO_ERROR();
	errno = 0; mat<real, 2, 2> W{{s, t}}; SOME_ERROR(); ENSURES_NAN("NaN", W(0, 0)); errno = 0; mat<real, 2, 2> X{{s, t}, {u}}; SOME_ERROR(); ENSURES_NAN("NaN", X(0, 0));
	errno = 0; mat<real> Y{{s, t}, {u}}; SOME_ERROR(); ENSURES_NAN("NaN", Y(0, 0));
	errno = 0; mat<real, 2, 2> Q; Q = M; SOME_ERROR(); ENSURES_NAN("NaN", Q(0, 0)); errno = 0; mat<real, 2, 2> R(mat<real>(3, 3)); SOME_ERROR(); ENSURES_NAN("NaN", R(1, 1));
	errno = 0; mat<real, 2, 2> S(s, 3, 3); SOME_ERROR();
}
static void dynamic_ops(unsigned n, unsigned k, unsigned m);
CONTRACT(dynamic_mat_operations) {
	BOUNDED("dynamic matrices of 1 to 3 rows and columns");
	unsigned n = PICK("n", 1, 3), k = PICK("k", 1, 3), m = PICK("m", 1, 3);
	dynamic_ops(n, k, m);
}
CONTRACT(dynamic_mat_operations_large) {
	BOUNDED("dynamic matrices of (4, 4, 4), (5, 7, 6), (8, 8, 8), (9, 4, 2), (1, 16, 1), (17, 2, 3), (3, 3, 12), (11, 10, 9)");
	static const unsigned s[8][3] = {{4, 4, 4}, {5, 7, 6}, {8, 8, 8}, {9, 4, 2}, {1, 16, 1}, {17, 2, 3}, {3, 3, 12}, {11, 10, 9}};
	const unsigned i = PICK("case", 0, 7);
	dynamic_ops(s[i][0], s[i][1], s[i][2]);
}
static void dynamic_ops(unsigned n, unsigned k, unsigned m) {
	const mat<real> A = sym_dmat("A", n, k), B = sym_dmat("B", n, k), C = sym_dmat("C", k, m);
	const real s = REAL("s"), t = REAL("t");
	errno = 0;
	ALLM(n, k, "A + B", A + B, A(i, j) + B(i, j)); ALLM(n, k, "A - B", A - B, A(i, j) - B(i, j));
	ALLM(n, k, "A * s", A * s, A(i, j) * s); ALLM(n, k, "s * A", s * A, A(i, j) * s);
	mat<real> R = A; R += B; ALLM(n, k, "A += B", R, A(i, j) + B(i, j)); R = A; R -= B; ALLM(n, k, "A -= B", R, A(i, j) - B(i, j)); R = A; R *= s; ALLM(n, k, "A *= s", R, A(i, j) * s);
	R = A; algebra::mat_lincomb(s, R, t, B); ALLM(n, k, "s A + t B", R, s * A(i, j) + t * B(i, j));
	ALLM(n, m, "A * C", A * C, prod(A, C, i, j)); ALLM(n, m, "A.mul(C)", A.mul(C), prod(A, C, i, j)); ALLM(n, m, "mat_mul", algebra::mat_mul(A, C), prod(A, C, i, j));
	R = A; R *= C; ALLM(n, m, "A *= C", R, prod(A, C, i, j));
	ALLM(k, n, "transpose", algebra::transpose(A), A(j, i));
	ALLM(k, k, "A^T B", algebra::mat_transpose_mul(A, B), prod(algebra::transpose(A), B, i, j));
	ALLM(n, n, "A B^T", algebra::mat_mul_transpose(A, B), prod(A, algebra::transpose(B), i, j));
	const vec<real> v = sym_dvec("v", k), w = sym_dvec("w", n);
	ALLV(n, "A * v", A * v, apply(A, v, i)); ALLV(n, "transform", A.transform(v), apply(A, v, i)); ALLV(n, "algebra::transform", algebra::transform(A, v), apply(A, v, i));
	ALLV(k, "w * A", operator*(w, A), applyt(w, A, i)); vec<real> x = v; algebra::apply_transform(A, x); ALLV(n, "apply_transform", x, apply(A, v, i));
	if (n == k) { R = A; R.transpose(); ALLM(n, n, "transpose in place", R, A(j, i)); }
	NO_ERROR();
}
CONTRACT(dynamic_mat_size_mismatch) {
	BOUNDED("dynamic matrices of 1, 2 and 7 rows and columns");
	unsigned n = PICK_OR("n", 1, 2, 7), k = PICK_OR("k", 1, 2, 7), m = PICK_OR("m", 1, 2, 7), l = PICK_OR("l", 1, 2, 7);
	const mat<real> A = sym_dmat("A", n, k), B = sym_dmat("B", m, l);
	if (n != m || k != l) {
		errno = 0; mat<real> R = A + B; SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); errno = 0; R = A - B; SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
		errno = 0; R = A; R += B; SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); errno = 0; R = A; R -= B; SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
		errno = 0; R = A; algebra::mat_lincomb(1.0, R, 1.0, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); errno = 0; R = A; algebra::mat_lincomb(R, 1.0, A, 1.0, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
		errno = 0; R = A; algebra::mat_sum(R, B, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); errno = 0; R = A; algebra::mat_diff(R, B, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
		errno = 0; R = A; algebra::mat_scalmul(R, 2.0, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
	}
	if (k != m) { errno = 0; mat<real> R = A * B; SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); errno = 0; R = A.mul(B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); errno = 0; R = algebra::mat_mul(A, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); R = mat<real>(n, l); errno = 0; algebra::mat_mul(R, A, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); }
	if (n != m) { errno = 0; mat<real> R = algebra::mat_transpose_mul(A, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); }
	if (k != l) { errno = 0; mat<real> R = algebra::mat_mul_transpose(A, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); }
	if (n != l || k != m) { errno = 0; mat<real> R = A; algebra::transpose(R, B); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); }
	if (n != k) { errno = 0; mat<real> R = A; R.transpose(); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0)); }
	const vec<real> v = sym_dvec("v", m);
	if (k != m) {
		errno = 0; vec<real> r = A * v; SOME_ERROR(); ALLV(n, "NaN", r, nan()); errno = 0; r = A.transform(v); SOME_ERROR(); ALLV(n, "NaN", r, nan()); errno = 0; r = algebra::transform(A, v); SOME_ERROR(); ALLV(n, "NaN", r, nan());
		errno = 0; r = v; algebra::apply_transform(A, r); SOME_ERROR(); ALLV(m, "NaN", r, nan()); r = vec<real>(n); errno = 0; algebra::transform(r, A, v); SOME_ERROR(); ALLV(n, "NaN", r, nan());
	} else { vec<real> r(n + 1); errno = 0; algebra::transform(r, A, v); SOME_ERROR(); ALLV(n + 1, "NaN", r, nan()); }
	if (n != m) { errno = 0; vec<real> r = operator*(v, A); SOME_ERROR(); ALLV(k, "NaN", r, nan()); }
	ENSURES("reached", true);
}
CONTRACT(hermitian_conjugate) {
	using C = complex<real>;
	mat<C, 2, 2> A; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) A(i, j) = C(REAL("a"), REAL("b"));
	mat<C, 2, 2> H = algebra::hermitian(A), M = A, G; algebra::make_hermitian(M); algebra::hermitian(G, A);
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
		ENSURES_EQ("re", H(i, j).Re(), A(j, i).Re()); ENSURES_EQ("im", H(i, j).Im(), -A(j, i).Im());
		ENSURES_EQ("in place re", M(i, j).Re(), A(j, i).Re()); ENSURES_EQ("in place im", M(i, j).Im(), -A(j, i).Im());
		ENSURES_EQ("into re", G(i, j).Re(), A(j, i).Re()); ENSURES_EQ("into im", G(i, j).Im(), -A(j, i).Im());
	}
	mat<C, 2, 2> B; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) B(i, j) = C(REAL("c"), REAL("d"));
	mat<C, 2, 2> P = A * B;
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
		real re = 0, im = 0; for (int k = 0; k < 2; k++) { re += A(i, k).Re() * B(k, j).Re() - A(i, k).Im() * B(k, j).Im(); im += A(i, k).Re() * B(k, j).Im() + A(i, k).Im() * B(k, j).Re(); }
		ENSURES_EQ("complex product re", P(i, j).Re(), re); ENSURES_EQ("complex product im", P(i, j).Im(), im);
	}
}
CONTRACT(mat_predicates) {
	mat<real, 3, 3> A = sym_mat<3, 3>("A");
	unsigned k = PICK("k", 0, 2), l = PICK("l", 0, 2);
	REQUIRES(A(k, l) > 1E-3);
	if (k != l) { ENSURES("a nonzero off-diagonal element: not diagonal", !algebra::is_diagonal(A)); }
	if (l > k) ENSURES("not lower triangular", !algebra::is_lower_triangular(A));
	if (l < k) ENSURES("not upper triangular", !algebra::is_upper_triangular(A));
	mat<real, 3, 3> D, L, U, S;
	for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) { D(i, j) = i == j ? A(i, j) : 0.0; L(i, j) = i >= j ? A(i, j) : 0.0; U(i, j) = i <= j ? A(i, j) : 0.0; S(i, j) = A(i < j ? i : j, i < j ? j : i); }
	ENSURES("diagonal", algebra::is_diagonal(D)); ENSURES("lower", algebra::is_lower_triangular(L)); ENSURES("upper", algebra::is_upper_triangular(U)); ENSURES("symmetric", algebra::is_symmetric(S));
	if (k != l) { S(k, l) = S(l, k) + A(k, l); ENSURES("asymmetric", !algebra::is_symmetric(S)); }
	ENSURES("square", algebra::is_square(A) && !algebra::is_square(mat<real, 2, 3>()));
	ENSURES("rectangular matrices are neither", !algebra::is_symmetric(mat<real, 2, 3>()) && !algebra::is_lower_triangular(mat<real, 2, 3>()) && !algebra::is_upper_triangular(mat<real, 2, 3>()));
}
CONTRACT(mat_density) {
	mat<real, 2, 3> A; unsigned mask = PICK("mask", 0, 63), c = 0; real x = REAL("x"); REQUIRES(x > 1E-9 || x < -1E-9);
	for (unsigned i = 0; i < 2; i++) for (unsigned j = 0; j < 3; j++) if (mask >> (3 * i + j) & 1) { A(i, j) = x; c++; }
	ENSURES_EQ("density", algebra::density(A), c / 6.0); ENSURES_EQ("sparsity", algebra::sparsity(A), 1 - c / 6.0);
}
CONTRACT(mat_iteration) {
	mat<real, 2, 3> A = sym_mat<2, 3>("A"); const mat<real, 2, 3> B = A; mat<real> D = sym_dmat("D", 2, 3);
	unsigned n = 0; for (real x : B) { ENSURES_EQ("row major order", x, B(n / 3, n % 3)); n++; } ENSURES("covers all", n == 6);
	n = 0; for (real& x : A) { x = n++; } for (unsigned i = 0; i < 2; i++) for (unsigned j = 0; j < 3; j++) ENSURES_EQ("writes", A(i, j), 3.0 * i + j);
	n = 0; for (real x : D) { ENSURES_EQ("row major order", x, D(n / 3, n % 3)); n++; } ENSURES("covers all", n == 6);
	A.at(1, 2) = 7; ENSURES_EQ("at", A.get(1, 2), 7.0); A.make_zeroes(); for (real x : A) ENSURES_EQ("zeroes", x, 0.0);
}

CONTRACT(hermitian_dynamic) {
	using C = complex<real>;
	BOUNDED("dynamic complex matrices of 1 to 3, 7 and 8 rows and columns");
	const unsigned n = PICK_OR("n", 1, 3, 8), k = PICK_OR("k", 1, 3, 7);
	mat<C> A(n, k); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < k; j++) A(i, j) = C(REAL("a"), REAL("b"));
	errno = 0;
	mat<C> H = algebra::hermitian(A), G(k, n); algebra::hermitian(G, A);
	ENSURES("size", H.rows() == k && H.cols() == n);
	for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < n; j++) {
		ENSURES_EQ("re", H(i, j).Re(), A(j, i).Re()); ENSURES_EQ("im", H(i, j).Im(), -A(j, i).Im());
		ENSURES_EQ("into re", G(i, j).Re(), A(j, i).Re()); ENSURES_EQ("into im", G(i, j).Im(), -A(j, i).Im());
	}
	NO_ERROR();
}
CONTRACT(mixed_fixed_dynamic_products) {
	BOUNDED("dynamic factors of 1 to 4 and 9 rows and columns");
	const unsigned n = PICK_OR("n", 1, 4, 9), k = PICK_OR("k", 1, 4, 9);
	const mat<real, 2, 3> A = sym_mat<2, 3>("A"); const mat<real> B = sym_dmat("B", n, k);
	errno = 0;
	const mat<real> P = A.mul(B), Q = A * B;
	ENSURES("size", P.rows() == 2 && P.cols() == k && Q.rows() == 2 && Q.cols() == k);
	if (n == 3) { ALLM(2, k, "fixed.mul(dynamic)", P, prod(A, B, i, j)); ALLM(2, k, "fixed * dynamic", Q, prod(A, B, i, j)); NO_ERROR(); }
	else { SOME_ERROR(); ENSURES_NAN("NaN", P(0, 0)); ENSURES_NAN("NaN", Q(0, 0)); }
	errno = 0;
	const mat<real, 2, 3> S = B.mul(A), T = B * A;		// the result has the type of the right factor
	if (k == 2 && n == 2) { ALLM(2, 3, "dynamic.mul(fixed)", S, prod(B, A, i, j)); ALLM(2, 3, "dynamic * fixed", T, prod(B, A, i, j)); NO_ERROR(); }
	else { SOME_ERROR(); ENSURES_NAN("NaN", S(0, 0)); ENSURES_NAN("NaN", T(0, 0)); }
}
