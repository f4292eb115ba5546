// Eigensolvers
#include "thvlib.h"
using namespace theoretica::algebra;
typedef mat<real, 2, 2> M2;
typedef vec<real, 2> V2;
CONTRACT(rayleigh_quotient_definition) {
	const mat<real, 3, 3> A = sym_mat<3, 3>("A");
	const vec<real, 3> x = sym_vec<3>("x");
	real n = 0, q = 0;
	for (unsigned i = 0; i < 3; i++) { n += x[i] * x[i]; for (unsigned j = 0; j < 3; j++) q += x[i] * A(i, j) * x[j]; }
	REQUIRES(n > 1E-10);
	ENSURES_EQ("quotient", rayleigh_quotient(A, x) * n, q);
	NO_ERROR();
}
CONTRACT(rayleigh_quotient_zero) {
	const M2 A = sym_mat<2, 2>("A");
	ENSURES_NAN("NaN", rayleigh_quotient(A, V2({0, 0})));
	SOME_ERROR();
}
CONTRACT(power_eigenvector) {
	const real a = REAL("a"), b = REAL("b"), k = REAL("k");
	const unsigned j = (unsigned) PICK("j", 0, 1);
	REQUIRES((a > 1E-3 || a < -1E-3) && (k > 1E-3 || k < -1E-3));
	REQUIRES(a * k > 1E-3 || a * k < -1E-3);
	M2 A; A(j, j) = a; A(0, 1) = A(1, 0) = 0; A(1 - j, 1 - j) = b;
	V2 x = {0, 0}, v = {0, 0};
	x[j] = k;
	ENSURES_EQ("eigenvalue", eigenvalue_power(A, x), a);
	ENSURES_EQ("eigenvalue of the pair", eigenpair_power(A, x, v), a);
	ENSURES("unit eigenvector", v[j] * v[j] == 1 && v[1 - j] == 0);
	NO_ERROR();
}
// One iteration from any vector: the result is the Rayleigh quotient of the second iterate, or NaN
CONTRACT(power_step) {
	BOUNDED("power iteration: one iteration");
	const real a = REAL("a"), b = REAL("b"), tol = REAL("tol");
	REQUIRES(a > 1 && b > 1 && tol > 0);
	M2 A; A(0, 0) = a; A(0, 1) = A(1, 0) = 0; A(1, 1) = b;
	const V2 x = {REAL("x0"), REAL("x1")};
	REQUIRES(x[0] > 1 && x[1] > 1);
	V2 v = {7, 7};
	const real r = eigenpair_power(A, x, v, tol, 1);
	const real n1 = thv_sqrt(a * a * x[0] * x[0] + b * b * x[1] * x[1]), p0 = a * x[0] / n1, p1 = b * x[1] / n1;
	const real n2 = thv_sqrt(a * a * p0 * p0 + b * b * p1 * p1), q0 = a * p0 / n2, q1 = b * p1 / n2;
	const real d = thv_sqrt((q0 - p0) * (q0 - p0) + (q1 - p1) * (q1 - p1));
	if (d <= tol) {
		ENSURES_EQ("eigenvalue", r, a * q0 * q0 + b * q1 * q1);
		ENSURES_EQ("eigenvector", v[0], q0);
		ENSURES_EQ("eigenvector", v[1], q1);
	} else if (thv_sqrt((q0 + p0) * (q0 + p0) + (q1 + p1) * (q1 + p1)) > tol) {
		ENSURES_NAN("not converged", r);
		ENSURES("errno", errno == ERANGE);
	}
}
CONTRACT(inverse_eigenvector) {
	BOUNDED("inverse iteration from an eigenvector of diagonal matrices");
	const real a = REAL("a"), b = REAL("b");
	REQUIRES((a > 1E-3 || a < -1E-3) && (b > 1E-3 || b < -1E-3));
	REQUIRES((1 / a > 1E-3 || 1 / a < -1E-3));
	M2 A; A(0, 0) = a; A(0, 1) = A(1, 0) = 0; A(1, 1) = b;
	V2 v = {0, 0};
	const V2 x = {1, 0};
	ENSURES_EQ("eigenvalue", eigenvalue_inverse(A, x), a);
	ENSURES_EQ("eigenvalue of the pair", eigenpair_inverse(A, x, v), a);
	ENSURES("eigenvector", v[0] * v[0] == 1 && v[1] == 0);
	NO_ERROR();
}
// Convergence on given matrices, in binary64
static const real T3[][9] = {
	{2, 1, 0, 1, 3, 1, 0, 1, 4}, {4, -1, 0.5, -1, 3, 0.25, 0.5, 0.25, -6}, {1, 2, 3, 2, -1, 1, 3, 1, 5}, {10, 0, 1, 0, -3, 0, 1, 0, 2} };
static mat<real, 3, 3> matrix3(unsigned k) {
	mat<real, 3, 3> A;
	for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) A(i, j) = T3[k][3 * i + j];
	return A;
}
static real residual(const mat<real, 3, 3>& A, const vec<real, 3>& v, real l) {
	real r = 0;
	for (unsigned i = 0; i < 3; i++) {
		real s = -l * v[i];
		for (unsigned j = 0; j < 3; j++) s += A(i, j) * v[j];
		r += s < 0 ? -s : s;
	}
	return r;
}
static real charpoly(const mat<real, 3, 3>& A, real l) {
	const real a = A(0, 0) - l, b = A(1, 1) - l, c = A(2, 2) - l;
	return a * (b * c - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * c - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - b * A(2, 0));
}
CONTRACT(convergence) {
	IEEE();
	BOUNDED("four symmetric matrices of size 3, three starting vectors, five solvers");
	const unsigned k = (unsigned) PICK("matrix", 0, 3), j = (unsigned) PICK("start", 0, 2), solver = (unsigned) PICK("solver", 0, 3);
	const mat<real, 3, 3> A = matrix3(k);
	const vec<real, 3> x = {1, j == 0 ? 0.5 : -2.0, j == 2 ? 3.0 : 0.25};
	vec<real, 3> v = {0, 0, 0};
	const real l = solver == 0 ? eigenpair_power(A, x, v) : solver == 1 ? eigenpair_inverse(A, x, v) : eigenpair_rayleigh(A, solver == 2 ? 1.75 : -2.5, x, v);
	const real e = solver == 0 ? eigenvalue_power(A, x) : solver == 1 ? eigenvalue_inverse(A, x) : eigenvalue_rayleigh(A, solver == 2 ? 1.75 : -2.5, x);
	// the Rayleigh iteration may meet an exactly singular shifted matrix: then it reports an error
	if (solver >= 2 && thv_isnan(l)) {
		SOME_ERROR();
		ENSURES_NAN("both report", e);
		return;
	}
	ENSURES_NEAR("eigenpair: A v = l v", residual(A, v, l), 0, 1E-6);
	ENSURES_NEAR("unit vector", v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 1, 1E-10);
	ENSURES_NEAR("same eigenvalue", e, l, 1E-10);
	ENSURES_NEAR("root of the characteristic polynomial", charpoly(A, e), 0, 1E-5);
	// the power method finds the biggest, the inverse method the smallest eigenvalue: no other root beyond
	const real tr = A(0, 0) + A(1, 1) + A(2, 2), det = charpoly(A, 0);
	if (solver == 0) ENSURES("biggest eigenvalue", (l < 0 ? -l : l) * 3 >= (tr < 0 ? -tr : tr) - 1E-6 && (l < 0 ? -l : l) * l * l >= (det < 0 ? -det : det) - 1E-6);
	if (solver == 1) ENSURES("smallest eigenvalue", (l < 0 ? -l : l) * l * l <= (det < 0 ? -det : det) + 1E-6);
	if (solver == 1) {
		const vec<real, 3> w = eigenvector_inverse(A, l + 0.01, x);
		ENSURES_NEAR("eigenvector of an approximate eigenvalue", residual(A, w, l), 0, 1E-6);
	}
	NO_ERROR();
}
CONTRACT(sizes) {
	BOUNDED("matrices of up to 3 rows");
	const unsigned r = (unsigned) PICK("rows", 1, 3), c = (unsigned) PICK("columns", 1, 3), n = (unsigned) PICK("vector", 1, 3), k = (unsigned) PICK("solver", 0, 6);
	REQUIRES(r != c || r != n);
	const mat<real> A = sym_dmat("A", r, c);
	const vec<real> x = sym_dvec("x", n);
	vec<real> v = x;
	if (k == 6) {
		const vec<real> w = eigenvector_inverse(A, 1.0, x);
		ENSURES("size", w.size() == n);
		ENSURES_NAN("NaN", w[0]);
	} else
		ENSURES_NAN("NaN", k == 0 ? eigenvalue_power(A, x) : k == 1 ? eigenpair_power(A, x, v) : k == 2 ? eigenvalue_inverse(A, x) : k == 3 ? eigenpair_inverse(A, x, v)
			: k == 4 ? eigenvalue_rayleigh(A, 1.0, x) : eigenpair_rayleigh(A, 1.0, x, v));
	ENSURES("errno", errno == EINVAL);
}
