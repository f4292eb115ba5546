// Factorisations, linear systems, inverse and determinant.
#include "thvlib.h"

template<unsigned N> static real minor_det(const mat<real, N, N>& A, unsigned n);
// Leibniz/Laplace expansion: the definition of the determinant
template<typename M> static real spec_det(const M& A, unsigned n, unsigned row, unsigned usedmask) {
	if (row == n) return 1;
	real s = 0; int sign = 1;
	for (unsigned j = 0; j < n; j++) if (!(usedmask >> j & 1)) { s += sign * A(row, j) * spec_det(A, n, row + 1, usedmask | 1u << j); sign = -sign; }
	return s;
}
template<typename M> static real spec_minor(const M& A, unsigned k) { // leading principal minor of order k
	mat<real> B(k, k); for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < k; j++) B(i, j) = A(i, j);
	return spec_det(B, k, 0, 0);
}
template<typename M1, typename M2> static real prod(const M1& A, const M2& B, unsigned i, unsigned j, unsigned n) { real s = 0; for (unsigned k = 0; k < n; k++) s += A(i, k) * B(k, j); return s; }
template<typename M1, typename V> static real apply(const M1& A, const V& v, unsigned i, unsigned n) { real s = 0; for (unsigned k = 0; k < n; k++) s += A(i, k) * v[k]; return s; }

template<unsigned N> static void det_contract() {
	const mat<real, N, N> A = sym_mat<N, N>("A");
	errno = 0;
	ENSURES_EQ("det is the determinant", algebra::det(A), spec_det(A, N, 0, 0));
	NO_ERROR();
}
CONTRACT(det_1) { det_contract<1>(); }
CONTRACT(det_2) { det_contract<2>(); }
CONTRACT(det_3) { det_contract<3>(); }
CONTRACT(det_of_rectangular_is_an_error) { mat<real> A = sym_dmat("A", 2, 3); errno = 0; ENSURES_NAN("NaN", algebra::det(A)); SOME_ERROR(); }
CONTRACT(det_of_permutations_4) {
	mat<real, 4, 4> A; unsigned p[4]; real x[4]; real d = 1;
	for (int i = 0; i < 4; i++) { p[i] = PICK("p", 0, 3); for (int j = 0; j < i; j++) { REQUIRES(p[i] != p[j]); if (p[i] < p[j]) d = -d; } x[i] = REAL("x"); REQUIRES(x[i] != 0); A(i, p[i]) = x[i]; d *= x[i]; }
	ENSURES_EQ("determinant of a scaled permutation", algebra::det(A), d);
}

template<unsigned N> static void lu_contract() {
	const mat<real, N, N> A = sym_mat<N, N>("A");
	for (unsigned k = 1; k < N; k++) REQUIRES(spec_minor(A, k) != 0);
	mat<real, N, N> L = sym_mat<N, N>("L"), U = sym_mat<N, N>("U");
	errno = 0;
	algebra::decompose_lu(A, L, U);
	for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) {
		if (j > i) ENSURES_EQ("L is lower triangular", L(i, j), 0.0);
		if (j == i) ENSURES_EQ("L has a unit diagonal", L(i, j), 1.0);
		if (j < i) ENSURES_EQ("U is upper triangular", U(i, j), 0.0);
		ENSURES_EQ("L U = A", prod(L, U, i, j, N), A(i, j));
	}
	mat<real, N, N> F = A; algebra::decompose_lu_inplace(F);
	for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) ENSURES_EQ("in place factors", F(i, j), j < i ? L(i, j) : U(i, j));
	NO_ERROR();
}
CONTRACT(lu_2) { lu_contract<2>(); }
CONTRACT(lu_3) { lu_contract<3>(); }
CONTRACT(lu_4_nonzero_pivots) { NODIV0(); lu_contract<4>(); }
CONTRACT(lu_dynamic) {
	BOUNDED("2x2");
	const mat<real> A = sym_dmat("A", 2, 2); REQUIRES(A(0, 0) != 0);
	mat<real> L, U; errno = 0; algebra::decompose_lu(A, L, U);
	ENSURES("sizes", L.rows() == 2 && L.cols() == 2 && U.rows() == 2 && U.cols() == 2);
	for (unsigned i = 0; i < 2; i++) for (unsigned j = 0; j < 2; j++) ENSURES_EQ("L U = A", prod(L, U, i, j, 2), A(i, j));
	NO_ERROR();
	mat<real> B = sym_dmat("B", 2, 3); errno = 0; algebra::decompose_lu(B, L, U); SOME_ERROR(); ENSURES_NAN("NaN", L(0, 0)); ENSURES_NAN("NaN", U(0, 0));
	errno = 0; algebra::decompose_lu_inplace(B); SOME_ERROR(); ENSURES_NAN("NaN", B(0, 0));
}
CONTRACT(lu_complex) {
	using C = complex<real>;
	mat<C, 2, 2> A, L, U; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) A(i, j) = C(REAL("a"), REAL("b"));
	REQUIRES(A(0, 0).Re() > 1E-3);
	algebra::decompose_lu(A, L, U);
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { C p = L(i, 0) * U(0, j) + L(i, 1) * U(1, j); ENSURES_EQ("L U = A re", p.Re(), A(i, j).Re()); ENSURES_EQ("L U = A im", p.Im(), A(i, j).Im()); }
	mat<C, 2, 2> F = A; algebra::decompose_lu_inplace(F); ENSURES_EQ("in place re", F(1, 1).Re(), U(1, 1).Re()); ENSURES_EQ("in place im", F(1, 1).Im(), U(1, 1).Im());
}

template<unsigned N> static void cholesky_contract() {
	mat<real, N, N> A; for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j <= i; j++) A(i, j) = A(j, i) = REAL("A");
	errno = 0;
	mat<real, N, N> L = algebra::decompose_cholesky(A);
	if (errno == 0) {
		for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) {
			if (j > i) ENSURES_EQ("lower triangular", L(i, j), 0.0);
			real s = 0; for (unsigned k = 0; k < N; k++) s += L(i, k) * L(j, k);
			ENSURES_EQ("L L^T = A", s, A(i, j));
		}
		for (unsigned i = 0; i < N; i++) ENSURES("positive diagonal", L(i, i) > 0);
		mat<real, N, N> B = A; algebra::decompose_cholesky_inplace(B);
		for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) ENSURES_EQ("in place", B(i, j), L(i, j));
		vec<real, N> b = sym_vec<N>("b"), x = algebra::solve_cholesky(L, b);
		for (unsigned i = 0; i < N; i++) ENSURES_EQ("A x = b", apply(A, x, i, N), b[i]);
		NO_ERROR();
	} else ENSURES_NAN("error result", L(0, 0));
}
CONTRACT(cholesky_1) { cholesky_contract<1>(); }
CONTRACT(cholesky_2) { cholesky_contract<2>(); }
CONTRACT(cholesky_3) { NODIV0(); cholesky_contract<3>(); }
CONTRACT(cholesky_accepts_positive_definite) {
	mat<real, 2, 2> A; A(0, 0) = REAL("a"); A(1, 1) = REAL("d"); A(0, 1) = A(1, 0) = REAL("b");
	REQUIRES(A(0, 0) > 1E-3); REQUIRES(A(1, 1) - A(0, 1) * A(0, 1) / A(0, 0) > 1E-3);
	errno = 0; mat<real, 2, 2> L = algebra::decompose_cholesky(A); NO_ERROR();
}
CONTRACT(cholesky_rejects) {
	mat<real, 2, 2> A = sym_mat<2, 2>("A"); real d = A(0, 1) - A(1, 0);
	if (PICK("asymmetric", 0, 1)) REQUIRES(d > 1E-3 || d < -1E-3); else { A(1, 0) = A(0, 1); REQUIRES(A(0, 0) < 0 || A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) < 0); }
	errno = 0; mat<real, 2, 2> L = algebra::decompose_cholesky(A); SOME_ERROR(); ENSURES_NAN("NaN", L(0, 0));
	mat<real> R = sym_dmat("R", 2, 3); errno = 0; mat<real> S = algebra::decompose_cholesky(R); SOME_ERROR(); ENSURES_NAN("NaN", S(0, 0));
	errno = 0; algebra::decompose_cholesky_inplace(R); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
}

template<unsigned N> static void triangular_contract() {
	mat<real, N, N> L, U; vec<real, N> b = sym_vec<N>("b");
	for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j <= i; j++) { L(i, j) = REAL("L"); U(j, i) = REAL("U"); }
	for (unsigned i = 0; i < N; i++) REQUIRES(L(i, i) > 1E-9 && U(i, i) > 1E-9);
	errno = 0;
	vec<real, N> x = algebra::solve_triangular_lower(L, b), y = algebra::solve_triangular_upper(U, b);
	for (unsigned i = 0; i < N; i++) { ENSURES_EQ("L x = b", apply(L, x, i, N), b[i]); ENSURES_EQ("U y = b", apply(U, y, i, N), b[i]); }
	vec<real, N> z = algebra::solve_lu(L, U, b); (void) z;
	mat<real, N, N> M = L; for (unsigned i = 0; i < N; i++) M(i, i) = 1;
	z = algebra::solve_lu(M, U, b);
	for (unsigned i = 0; i < N; i++) { real s = 0; for (unsigned k = 0; k < N; k++) s += M(i, k) * apply(U, z, k, N); ENSURES_EQ("L U z = b", s, b[i]); }
	NO_ERROR();
}
CONTRACT(triangular_1) { triangular_contract<1>(); }
CONTRACT(triangular_2) { triangular_contract<2>(); }
CONTRACT(triangular_3) { triangular_contract<3>(); }
CONTRACT(triangular_4) { NODIV0(); triangular_contract<4>(); }
CONTRACT(triangular_dispatch) {
	mat<real, 2, 2> T = sym_mat<2, 2>("T"); vec<real, 2> b = sym_vec<2>("b");
	REQUIRES(T(0, 0) > 1E-9 && T(1, 1) > 1E-9);
	unsigned k = PICK("case", 0, 2);
	if (k == 0) T(0, 1) = 0;
	if (k == 1) T(1, 0) = 0;
	if (k == 2) REQUIRES(T(0, 1) > 1E-3 && T(1, 0) > 1E-3);
	errno = 0;
	vec<real, 2> x = algebra::solve_triangular(T, b);
	if (k < 2) { REQUIRES(k == 0 || T(0, 1) > 1E-3); for (unsigned i = 0; i < 2; i++) ENSURES_EQ("T x = b", apply(T, x, i, 2), b[i]); NO_ERROR(); }
	else { SOME_ERROR(); ENSURES_NAN("NaN", x[0]); ENSURES_NAN("NaN", x[1]); }
}
CONTRACT(triangular_errors) {
	mat<real, 2, 2> T = sym_mat<2, 2>("T"); vec<real, 2> b = sym_vec<2>("b"); mat<real> R = sym_dmat("R", 2, 3), S = sym_dmat("S", 2, 2); vec<real> c = sym_dvec("c", 3), d = sym_dvec("d", 2);
	unsigned k = PICK("k", 0, 1); T(k, k) = 0; real o = T(1 - k, 1 - k); REQUIRES(o > 1E-9);
	vec<real, 2> x; vec<real> y;
	errno = 0; x = algebra::solve_triangular_lower(T, b); SOME_ERROR(); ENSURES_NAN("zero pivot", x[0]); ENSURES_NAN("zero pivot", x[1]);
	errno = 0; x = algebra::solve_triangular_upper(T, b); SOME_ERROR(); ENSURES_NAN("zero pivot", x[0]); ENSURES_NAN("zero pivot", x[1]);
	mat<real, 2, 2> I(1.0); errno = 0; x = algebra::solve_lu(I, T, b); SOME_ERROR(); ENSURES_NAN("zero pivot", x[0]); ENSURES_NAN("zero pivot", x[1]);
	errno = 0; y = algebra::solve_triangular_lower(R, d); SOME_ERROR(); ENSURES_NAN("rectangular", y[0]); errno = 0; y = algebra::solve_triangular_upper(R, d); SOME_ERROR(); ENSURES_NAN("rectangular", y[0]);
	errno = 0; y = algebra::solve_triangular_lower(S, c); SOME_ERROR(); ENSURES_NAN("size", y[0]); errno = 0; y = algebra::solve_triangular_upper(S, c); SOME_ERROR(); ENSURES_NAN("size", y[0]);
	errno = 0; y = algebra::solve_lu(R, d); SOME_ERROR(); ENSURES_NAN("rectangular", y[0]); errno = 0; y = algebra::solve_lu(S, c); SOME_ERROR(); ENSURES_NAN("size", y[0]);
	errno = 0; y = algebra::solve_lu(R, R, d); SOME_ERROR(); ENSURES_NAN("rectangular", y[0]); errno = 0; y = algebra::solve_lu(S, R, d); SOME_ERROR(); ENSURES_NAN("rectangular", y[0]); errno = 0; y = algebra::solve_lu(S, S, c); SOME_ERROR(); ENSURES_NAN("size", y[0]);
	errno = 0; y = algebra::solve_cholesky(R, d); SOME_ERROR(); ENSURES_NAN("rectangular", y[0]); errno = 0; y = algebra::solve_cholesky(S, c); SOME_ERROR(); ENSURES_NAN("size", y[0]);
	errno = 0; y = d; algebra::solve_lu_inplace(R, y); SOME_ERROR(); ENSURES_NAN("rectangular", y[0]); errno = 0; y = c; algebra::solve_lu_inplace(S, y); SOME_ERROR(); ENSURES_NAN("size", y[0]);
}

template<unsigned N> static void solve_contract() {
	const mat<real, N, N> A = sym_mat<N, N>("A"); const vec<real, N> b = sym_vec<N>("b");
	real d = spec_det(A, N, 0, 0);
	errno = 0;
	vec<real, N> x = algebra::solve(A, b);
	if (errno == 0) { for (unsigned i = 0; i < N; i++) ENSURES_EQ("A x = b", apply(A, x, i, N), b[i]); }
	else { ENSURES_EQ("an error means the matrix is singular", d, 0.0); for (unsigned i = 0; i < N; i++) ENSURES_NAN("error result", x[i]); }
}
CONTRACT(solve_1) { solve_contract<1>(); }
CONTRACT(solve_2) { solve_contract<2>(); }
CONTRACT(solve_3) { solve_contract<3>(); }
// every 4x4 matrix with nonzero leading minors is L U with a unit lower L and an upper U with nonzero diagonal
static mat<real, 4, 4> regular4() {
	mat<real, 4, 4> L(1.0), U, A; for (unsigned i = 0; i < 4; i++) { for (unsigned j = 0; j < i; j++) L(i, j) = REAL("L"); for (unsigned j = i; j < 4; j++) U(i, j) = REAL("U"); REQUIRES(U(i, i) != 0); }
	for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < 4; j++) A(i, j) = prod(L, U, i, j, 4);
	return A;
}
CONTRACT(solve_4_regular) {
	const mat<real, 4, 4> A = regular4(); const vec<real, 4> b = sym_vec<4>("b");
	vec<real, 4> x = algebra::solve(A, b); for (unsigned i = 0; i < 4; i++) ENSURES_EQ("A x = b", apply(A, x, i, 4), b[i]);
}
CONTRACT(solve_singular) {
	mat<real, 2, 2> A = sym_mat<2, 2>("A"); real t = REAL("t"); A(1, 0) = t * A(0, 0); A(1, 1) = t * A(0, 1);
	errno = 0; vec<real, 2> x = algebra::solve(A, sym_vec<2>("b")); SOME_ERROR(); ENSURES_NAN("NaN", x[0]); ENSURES_NAN("NaN", x[1]);
	ENSURES_EQ("determinant is zero", algebra::det(A), 0.0);
}
CONTRACT(solve_dynamic) {
	BOUNDED("1x1 to 3x3"); unsigned n = PICK("n", 1, 3);
	const mat<real> A = sym_dmat("A", n, n); const vec<real> b = sym_dvec("b", n);
	real d = spec_det(A, n, 0, 0); REQUIRES(d != 0);
	errno = 0; vec<real> x = algebra::solve(A, b); ENSURES("size", x.size() == n); for (unsigned i = 0; i < n; i++) ENSURES_EQ("A x = b", apply(A, x, i, n), b[i]);
	ENSURES_EQ("det", algebra::det(A), d); NO_ERROR();
}
template<unsigned N> static void inverse_contract() {
	const mat<real, N, N> A = sym_mat<N, N>("A");
	real d = spec_det(A, N, 0, 0);
	errno = 0;
	mat<real, N, N> B = algebra::inverse(A), C = sym_mat<N, N>("C"), D = A;
	int e = errno;
	if (e == 0) {
		ENSURES("an invertible matrix", d != 0);
		for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) { ENSURES_EQ("A A^-1 = I", prod(A, B, i, j, N), i == j ? 1.0 : 0.0); ENSURES_EQ("A^-1 A = I", prod(B, A, i, j, N), i == j ? 1.0 : 0.0); }
	} else { ENSURES_EQ("an error means the matrix is singular", d, 0.0); ENSURES_NAN("error result", B(0, 0)); }
	errno = 0; algebra::inverse(C, A); ENSURES("same outcome", (errno != 0) == (e != 0)); errno = 0; D.invert(); ENSURES("same outcome", (errno != 0) == (e != 0));
	for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < N; j++) { ENSURES_EQ("inverse into", C(i, j), B(i, j)); ENSURES_EQ("invert in place", D(i, j), B(i, j)); }
}
CONTRACT(inverse_1) { inverse_contract<1>(); }
CONTRACT(inverse_2) { inverse_contract<2>(); }
CONTRACT(inverse_3) { inverse_contract<3>(); }
CONTRACT(inverse_4_regular) {
	const mat<real, 4, 4> A = regular4();
	mat<real, 4, 4> B = algebra::inverse(A); for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < 4; j++) ENSURES_EQ("A A^-1 = I", prod(A, B, i, j, 4), i == j ? 1.0 : 0.0);
}
CONTRACT(inverse_dynamic) {
	BOUNDED("1x1 to 2x2"); unsigned n = PICK("n", 1, 2);
	const mat<real> A = sym_dmat("A", n, n); REQUIRES(spec_det(A, n, 0, 0) != 0);
	errno = 0; mat<real> B = algebra::inverse(A); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) ENSURES_EQ("A A^-1 = I", prod(A, B, i, j, n), i == j ? 1.0 : 0.0);
	NO_ERROR();
	mat<real> R = sym_dmat("R", 2, 3), S = sym_dmat("S", 3, 3); errno = 0; B = algebra::inverse(R); SOME_ERROR(); ENSURES_NAN("NaN", B(0, 0));
	errno = 0; algebra::inverse(S, A); SOME_ERROR(); ENSURES_NAN("NaN", S(0, 0)); errno = 0; R.invert(); SOME_ERROR(); ENSURES_NAN("NaN", R(0, 0));
}
CONTRACT(rayleigh) {
	const mat<real, 3, 3> A = sym_mat<3, 3>("A"); const vec<real, 3> x = sym_vec<3>("x"); real q = x * x; REQUIRES(q > 1E-9);
	real s = 0; for (unsigned i = 0; i < 3; i++) s += x[i] * apply(A, x, i, 3);
	errno = 0; ENSURES_EQ("x.Ax / x.x", algebra::rayleigh_quotient(A, x), s / q); NO_ERROR();
	errno = 0; ENSURES_NAN("NaN", algebra::rayleigh_quotient(A, vec<real, 3>())); SOME_ERROR();
}

// Larger systems: A = P L U with given integer factors (so the determinant is known exactly), every right hand side
struct Known { mat<real> A; real det; };
static unsigned lcg(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 16; }
static mat<real> known_lower(unsigned n, unsigned& s, bool unit) {
	mat<real> L(n, n);
	for (unsigned i = 0; i < n; i++) { for (unsigned j = 0; j < i; j++) L(i, j) = (real) (int) (lcg(s) % 5) - 2; L(i, i) = unit ? 1 : (real) (int) (1 + lcg(s) % 3); }
	return L;
}
static Known known_matrix(unsigned n, unsigned seed, bool permute) {
	unsigned s = 12345u * seed + n; Known K; K.A.resize(n, n); K.det = 1;
	mat<real> L = known_lower(n, s, true), U(n, n); std::vector<unsigned> p(n);
	for (unsigned i = 0; i < n; i++) { p[i] = i; for (unsigned j = i + 1; j < n; j++) U(i, j) = (real) (int) (lcg(s) % 5) - 2; U(i, i) = (real) (int) (lcg(s) % 2 ? 1 : -2); K.det *= U(i, i); }
	if (permute) for (unsigned i = n; i-- > 1;) { unsigned j = lcg(s) % (i + 1); if (i != j) { unsigned t = p[i]; p[i] = p[j]; p[j] = t; K.det = -K.det; } }
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) K.A(p[i], j) = prod(L, U, i, j, n);
	return K;
}
CONTRACT(large_lu) {
	BOUNDED("given matrices of order 3 to 8, 11 and 17");
	const unsigned n = PICK_OR("n", 3, 8, 11, 17); const Known K = known_matrix(n, PICK("seed", 1, 3), false);
	mat<real> L, U, F = K.A; errno = 0; algebra::decompose_lu(K.A, L, U); algebra::decompose_lu_inplace(F); NO_ERROR();
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) {
		ENSURES_EQ("L U = A", prod(L, U, i, j, n), K.A(i, j)); ENSURES_EQ("triangular", j > i ? L(i, j) : j < i ? U(i, j) : L(i, j) - 1, 0.0);
		ENSURES_EQ("in place factors", F(i, j), j < i ? L(i, j) : U(i, j));
	}
	const vec<real> b = sym_dvec("b", n); vec<real> x = algebra::solve_lu(K.A, b), y = algebra::solve_lu(L, U, b), z = b; algebra::solve_lu_inplace(F, z); NO_ERROR();
	for (unsigned i = 0; i < n; i++) { ENSURES_EQ("A x = b", apply(K.A, x, i, n), b[i]); ENSURES_EQ("L U y = b", y[i], x[i]); ENSURES_EQ("in place", z[i], x[i]); }
}
CONTRACT(large_cholesky) {
	BOUNDED("given matrices of order 3 to 8, 11 and 17");
	const unsigned n = PICK_OR("n", 3, 8, 11, 17); unsigned s = PICK("seed", 1, 3); const mat<real> M = known_lower(n, s, false);
	mat<real> A(n, n); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { real t = 0; for (unsigned k = 0; k < n; k++) t += M(i, k) * M(j, k); A(i, j) = t; }
	errno = 0; mat<real> L = algebra::decompose_cholesky(A), B = A; algebra::decompose_cholesky_inplace(B); NO_ERROR();
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { ENSURES_EQ("the factor", L(i, j), M(i, j)); ENSURES_EQ("in place", B(i, j), M(i, j)); }
	const vec<real> b = sym_dvec("b", n); vec<real> x = algebra::solve_cholesky(L, b); NO_ERROR();
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("A x = b", apply(A, x, i, n), b[i]);
}
CONTRACT(large_triangular) {
	BOUNDED("given matrices of order 3 to 8, 11 and 17");
	const unsigned n = PICK_OR("n", 3, 8, 11, 17); unsigned s = PICK("seed", 1, 3); const mat<real> L = known_lower(n, s, false); mat<real> U = algebra::transpose(L); const vec<real> b = sym_dvec("b", n);
	errno = 0; vec<real> x = algebra::solve_triangular_lower(L, b), y = algebra::solve_triangular_upper(U, b), v = algebra::solve_triangular(L, b), w = algebra::solve_triangular(U, b); NO_ERROR();
	for (unsigned i = 0; i < n; i++) { ENSURES_EQ("L x = b", apply(L, x, i, n), b[i]); ENSURES_EQ("U y = b", apply(U, y, i, n), b[i]); ENSURES_EQ("dispatch", v[i], x[i]); ENSURES_EQ("dispatch", w[i], y[i]); }
}
CONTRACT(large_solve) {
	BOUNDED("given matrices of order 3 to 8, 11 and 17, rows permuted");
	const unsigned n = PICK_OR("n", 3, 8, 11, 17); const Known K = known_matrix(n, PICK("seed", 1, 3), true); const vec<real> b = sym_dvec("b", n);
	errno = 0; vec<real> x = algebra::solve(K.A, b); mat<real> B = algebra::inverse(K.A), C(n, n), D = K.A; algebra::inverse(C, K.A); D.invert();
	ENSURES_EQ("det", algebra::det(K.A), K.det); NO_ERROR();
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("A x = b", apply(K.A, x, i, n), b[i]);
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { ENSURES_EQ("A A^-1 = I", prod(K.A, B, i, j, n), i == j ? 1.0 : 0.0); ENSURES_EQ("into", C(i, j), B(i, j)); ENSURES_EQ("in place", D(i, j), B(i, j)); }
}
CONTRACT(large_singular) {
	BOUNDED("given matrices of order 3 to 8 and 11, one row a combination of two others");
	const unsigned n = PICK_OR("n", 3, 8, 11); Known K = known_matrix(n, PICK("seed", 1, 3), true); const unsigned r = PICK("row", 0, 2) * (n - 1) / 2;
	for (unsigned j = 0; j < n; j++) K.A(r, j) = 2 * K.A((r + 1) % n, j) - K.A((r + 2) % n, j);
	errno = 0; vec<real> x = algebra::solve(K.A, sym_dvec("b", n)); SOME_ERROR(); for (unsigned i = 0; i < n; i++) ENSURES_NAN("NaN", x[i]);
	errno = 0; mat<real> B = algebra::inverse(K.A); SOME_ERROR(); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) ENSURES("NaN on the diagonal, an error matrix", i != j || B(i, j) != B(i, j));
	errno = 0; ENSURES_EQ("determinant is zero", algebra::det(K.A), 0.0);
}
// shapes whose entries select the pivot: a zero leading block of any size up to order 5
CONTRACT(pivoting) {
	BOUNDED("orders 3 to 6, anti-diagonal and bordered matrices with symbolic right hand side");
	const unsigned n = PICK("n", 3, 6), z = PICK("z", 1, 5); REQUIRES(z < n);
	mat<real> A(n, n); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) A(i, j) = (i < z && j < n - z) || (i < z && j - (n - z) > i) ? 0 : (real) (1 + (i * 7 + j * j * 3 + i * j) % 11) + (i == (j + z) % n ? 20 : 0);
	const vec<real> b = sym_dvec("b", n); errno = 0; vec<real> x = algebra::solve(A, b); REQUIRES(errno == 0);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("A x = b", apply(A, x, i, n), b[i]);
}
