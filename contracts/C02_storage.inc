// Element addressing, resizing and copying of matrices and vectors.
#include "thvlib.h"
#define CONTRACT_L_(name, layout) CONTRACT(name##layout)
#define CONTRACT_L(name, layout) CONTRACT_L_(name, layout)

template<unsigned N, unsigned K> static void fixed_indexing() {
	mat<real, N, K> A = sym_mat<N, K>("A"); const mat<real, N, K> B = A; real s = REAL("s");
	unsigned i = PICK("i", 0, N - 1), j = PICK("j", 0, K - 1);
	A(i, j) = s;
	for (unsigned k = 0; k < N; k++) for (unsigned l = 0; l < K; l++) {
		ENSURES_EQ("a write to (i, j) changes (i, j) only", A(k, l), (k == i && l == j) ? s : B(k, l));
		ENSURES("at, get and () address the same element", &A.at(k, l) == &A(k, l) && A.get(k, l) == A(k, l));
		ENSURES("distinct index pairs are distinct elements", (&A(k, l) == &A(i, j)) == (k == i && l == j));
		const mat<real, N, K>& C = A; ENSURES("const access sees the same element", &C(k, l) == &A(k, l) && &C.at(k, l) == &A.at(k, l));
	}
}
CONTRACT_L(indexing_23_, LAYOUT) { fixed_indexing<2, 3>(); }
CONTRACT_L(indexing_41_, LAYOUT) { fixed_indexing<4, 1>(); }
CONTRACT_L(indexing_33_, LAYOUT) { fixed_indexing<3, 3>(); }
CONTRACT_L(dynamic_indexing_, LAYOUT) {
	BOUNDED("matrices of 1 to 4, 9 and 17 rows and columns");
	unsigned n = PICK_OR("n", 1, 4, 9, 17), m = PICK_OR("m", 1, 4, 8, 17);
	mat<real> A = sym_dmat("A", n, m); const mat<real> B = A; real s = REAL("s");
	ENSURES("dimensions", A.rows() == n && A.cols() == m && A.size() == n * m && B.rows() == n && B.cols() == m);
	unsigned i = PICK("i", 0, 3) % n, j = PICK("j", 0, 3) % m;
	A.at(i, j) = s;
	for (unsigned k = 0; k < n; k++) for (unsigned l = 0; l < m; l++) {
		ENSURES_EQ("a write to (i, j) changes (i, j) only, and copies are independent", A(k, l), (k == i && l == j) ? s : B(k, l));
		ENSURES("distinct index pairs are distinct elements", (&A(k, l) == &A(i, j)) == (k == i && l == j));
		const mat<real>& C = A; ENSURES("const access sees the same element", &C(k, l) == &A(k, l) && &C.at(k, l) == &A.at(k, l) && A.get(k, l) == A(k, l));
	}
}
CONTRACT_L(dynamic_resize_, LAYOUT) {
	BOUNDED("from and to 0 to 3 and 10 rows and columns");
	unsigned n = PICK_OR("n", 0, 3, 10), m = PICK_OR("m", 0, 3, 9), r = PICK_OR("r", 0, 3, 8), c = PICK_OR("c", 0, 3, 11);
	mat<real> A = sym_dmat("A", n, m); const mat<real> B = A;
	mat<real>* p = &A.resize(r, c);
	ENSURES("returns itself", p == &A); ENSURES("new dimensions", A.rows() == r && A.cols() == c && A.size() == r * c);
	for (unsigned k = 0; k < r; k++) for (unsigned l = 0; l < c; l++) ENSURES_EQ("(i, j) keeps its value, new elements are zero", A(k, l), (k < n && l < m) ? B(k, l) : 0.0);
	ENSURES("the copy keeps its size", B.rows() == n && B.cols() == m);
}
CONTRACT_L(dynamic_assignment_, LAYOUT) {
	BOUNDED("matrices of 1 to 4 and 12 rows and columns");
	unsigned n = PICK_OR("n", 1, 4, 12), m = PICK_OR("m", 1, 4, 12);
	mat<real> A = sym_dmat("A", n, m), C = sym_dmat("C", m, 2), D;
	const mat<real> B = A; real s = REAL("s");
	C = A; D = A; mat<real> E(A);
	A(n - 1, m - 1) = s;
	ENSURES("dimensions", C.rows() == n && C.cols() == m && D.rows() == n && E.cols() == m);
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < m; j++) { ENSURES_EQ("assignment copies", C(i, j), B(i, j)); ENSURES_EQ("assignment copies", D(i, j), B(i, j)); ENSURES_EQ("copy constructor", E(i, j), B(i, j)); }
	A = A; ENSURES_EQ("self assignment", A(n - 1, m - 1), s); ENSURES("self assignment", A.rows() == n && A.cols() == m);
	mat<real, 2, 3> F = sym_mat<2, 3>("F"); A = F; ENSURES("dimensions", A.rows() == 2 && A.cols() == 3); for (unsigned i = 0; i < 2; i++) for (unsigned j = 0; j < 3; j++) ENSURES_EQ("from fixed", A(i, j), F(i, j));
	unsigned k = 0; for (real x : E) { ENSURES_EQ("iteration is row by row", x, E(k / m, k % m)); k++; } ENSURES("iteration covers all", k == n * m);
}
// ---- vectors: the same contract for dynamic and fixed sizes
template<unsigned N> static void fixed_vector() {
	vec<real, N> v = sym_vec<N>("v"); const vec<real, N> w = v; const real s = REAL("s");
	const unsigned k = (unsigned) PICK("k", 0, N - 1);
	v[k] = s;
	const vec<real, N>& c = v;
	ENSURES("size", v.size() == N);
	for (unsigned i = 0; i < N; i++) {
		ENSURES_EQ("a write changes one element only", v[i], i == k ? s : w[i]);
		ENSURES("all accessors see the same element", &v.at(i) == &v[i] && &c[i] == &v[i] && v.get(i) == v[i]);
		ENSURES("distinct elements", (&v[i] == &v[k]) == (i == k));
	}
	v.at(k) = s + 1;
	ENSURES_EQ("at writes", v[k], s + 1);
}
CONTRACT_L(vector_indexing_, LAYOUT) {
	const unsigned n = (unsigned) PICK("n", 0, 4);
	switch (n) { case 0: fixed_vector<1>(); break; case 1: fixed_vector<2>(); break; case 2: fixed_vector<3>(); break; case 3: fixed_vector<5>(); break; default: fixed_vector<12>(); }
}
CONTRACT_L(dynamic_vector_, LAYOUT) {
	BOUNDED("vectors from and to 0 to 6, 9, 12, 16, 17, 33, 64, 100 elements");
	const unsigned n = PICK_OR("n", 0, 6, 9, 12, 16, 17, 33, 64, 100), m = PICK_OR("m", 0, 6, 9, 12, 16, 17, 33, 64, 100);
	vec<real> v = sym_dvec("v", n), a, b(m); const vec<real> w = v; const real s = REAL("s");
	a = v; b = v; vec<real> e(v);
	ENSURES("size", v.size() == n && w.size() == n && a.size() == n && b.size() == n && e.size() == n);
	v.resize(m);
	ENSURES("new size", v.size() == m);
	for (unsigned i = 0; i < m; i++) ENSURES_EQ("elements are kept, new ones are zero", v[i], i < n ? w[i] : 0.0);
	for (unsigned i = 0; i < n; i++) { ENSURES_EQ("copies are independent", a[i], w[i]); ENSURES_EQ("copies are independent", b[i], w[i]); ENSURES_EQ("copies are independent", e[i], w[i]); }
	if (!m) return;
	const unsigned p[3] = {0, m / 2, m - 1}, k = p[PICK("pos", 0, 2)];
	v[k] = s;
	const vec<real>& c = v;
	for (unsigned i = 0; i < m; i++) {
		ENSURES_EQ("a write changes one element only", v[i], i == k ? s : i < n ? w[i] : 0.0);
		ENSURES("all accessors see the same element", &v.at(i) == &v[i] && &c[i] == &v[i] && v.get(i) == v[i]);
	}
	unsigned count = 0; for (real x : v) { ENSURES_EQ("iteration", x, v[count]); count++; } ENSURES("iteration covers all", count == m);
	v.push(s); ENSURES("push", v.size() == m + 1); ENSURES_EQ("push", v[m], s); ENSURES_EQ("push keeps", v[k], s);
	v = v; ENSURES("self assignment", v.size() == m + 1);
}
