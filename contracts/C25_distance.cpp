#include "thvlib.h"
// Norms and distances of vectors against their definition, and the axioms of a distance.
typedef complex<real> cplx;
static real mod(real x) { return x < 0 ? -x : x; }
static real ipow(real x, unsigned k) { real p = 1; for (unsigned i = 0; i < k; i++) p *= x; return p; }
#define SIZES(n, what) BOUNDED(what ": sizes 1 to 5 (8)"); const unsigned n = (unsigned) PICK("size", 1, TIER(5, 8));
#define MANY(n, what) BOUNDED(what ": sizes 1 to 20, 31, 32, 33, 64, 100"); const unsigned n = (unsigned) PICK_OR("size", 1, 20, 31, 32, 33, 64, 100);
CONTRACT(norm_sums) {
	SIZES(n, "l1 and l2 norms")
	const vec<real> v = sym_dvec("v", n);
	real a = 0, q = 0;
	for (unsigned i = 0; i < n; i++) { a += mod(v[i]); q += v[i] * v[i]; }
	ENSURES_EQ("l1", algebra::l1_norm(v), a);
	ENSURES_EQ("l2", algebra::l2_norm(v), thv_sqrt(q));
	ENSURES_EQ("std::vector", algebra::l1_norm(std::vector<real>(1, v[0])), mod(v[0]));
	NO_ERROR();
}
CONTRACT(norm_max) {
	BOUNDED("maximum norm: sizes 1 to 4 (5)"); const unsigned n = (unsigned) PICK("size", 1, TIER(4, 5));
	const vec<real> v = sym_dvec("v", n);
	const real r = algebra::linf_norm(v);
	bool any = false;
	for (unsigned i = 0; i < n; i++) { const real m = mod(v[i]); ENSURES("not below an element", r >= m); any = any || r == m; }
	ENSURES("is an element", any);
	NO_ERROR();
}
CONTRACT(norm_power) {
	ABSTRACT1("_ZN10theoretica4rootEdi");
	BOUNDED("lp norm: sizes 1 to 4, p = 1 to 9, 16, 33");
	const unsigned n = (unsigned) PICK("size", 1, 4), p = (unsigned) PICK_OR("p", 1, 9, 16, 33);
	const vec<real> v = sym_dvec("v", n);
	real s = 0;
	for (unsigned i = 0; i < n; i++) { REQUIRES(v[i] > 0.01 || v[i] < -0.01); s += ipow(mod(v[i]), p); }
	ENSURES_EQ("root of the sum of powers", algebra::lp_norm(v, p), root(s, p));
}
CONTRACT(norm_power_low) {
	BOUNDED("lp norm: sizes 1 to 3, p = 1, 2");
	const unsigned n = (unsigned) PICK("size", 1, 3), p = (unsigned) PICK("p", 1, 2);
	const vec<real> v = sym_dvec("v", n);
	REQUIRES(v[0] > 0.01);
	ENSURES_EQ("l1 and l2 norms", algebra::lp_norm(v, p), p == 1 ? algebra::l1_norm(v) : algebra::l2_norm(v));
}
CONTRACT(norm_complex) {
	BOUNDED("norms of complex vectors: sizes 1 to 5, 8"); const unsigned n = (unsigned) PICK_OR("size", 1, 5, 8);
	cvec v(n);
	real q = 0, a = 0;
	for (unsigned i = 0; i < n; i++) {
		const real x = REAL("re"), y = REAL("im");
		v[i] = cplx(x, y);
		q += x * x + y * y;
		a += thv_sqrt(x * x + y * y);
	}
	REQUIRES(q > 1E-6);
	ENSURES_EQ("l1", algebra::l1_norm(v), a);
	ENSURES_EQ("l2", algebra::l2_norm(v), thv_sqrt(q));
}
template<typename V> static void distances(const V& a, const V& b, unsigned n) {
	real l1 = 0, l2 = 0, can = 0, far = 0;
	unsigned ham = 0;
	for (unsigned i = 0; i < n; i++) {
		const real d = a[i] - b[i];
		l1 += mod(d);
		l2 += d * d;
		if (mod(d) > far) far = mod(d);
		if (a[i] != 0 || b[i] != 0) can += mod(d) / (mod(a[i]) + mod(b[i]));
		REQUIRES(d == 0 || d > 1E-9 || d < -1E-9);
		if (d != 0) ham++;
	}
	ENSURES_EQ("Manhattan", algebra::manhattan_distance(a, b), l1);
	ENSURES_EQ("Euclidean", algebra::euclidean_distance(a, b), thv_sqrt(l2));
	ENSURES_EQ("Chebyshev", algebra::chebyshev_distance(a, b), far);
	ENSURES_EQ("Canberra", algebra::canberra_distance(a, b), can);
	ENSURES_EQ("Hamming", algebra::hamming_distance(a, b), ham);
	ENSURES_EQ("discrete", algebra::discrete_distance(a, b), ham ? 1 : 0);
	NO_ERROR();
}
CONTRACT(dynamic_vectors) {
	BOUNDED("dynamic vectors: sizes 1, 2");
	const unsigned n = (unsigned) PICK("size", 1, 2);
	distances(sym_dvec("a", n), sym_dvec("b", n), n);
}
CONTRACT(fixed_vectors) {
	BOUNDED("fixed vectors: sizes 1, 2");
	if (PICK("size", 1, 2) == 1) distances(sym_vec<1>("a"), sym_vec<1>("b"), 1);
	else distances(sym_vec<2>("a"), sym_vec<2>("b"), 2);
}
CONTRACT(longer_vectors) {
	MANY(n, "sums and counts, ordered elements")
	// the signs are fixed, so that each size is one path; all signs are covered by the contracts of smaller sizes
	vec<real> a(n), b(n);
	real l1 = 0, l2 = 0, can = 0;
	for (unsigned i = 0; i < n; i++) {
		const real x = REAL("x"), d = REAL("d");
		REQUIRES(x > 0 && d > 1E-9);
		if (i % 2) { a[i] = x; b[i] = x + d; } else { a[i] = x + d; b[i] = x; }
		l1 += d;
		l2 += d * d;
		can += d / (2 * x + d);
	}
	ENSURES_EQ("Manhattan", algebra::manhattan_distance(a, b), l1);
	ENSURES_EQ("Euclidean", algebra::euclidean_distance(a, b), thv_sqrt(l2));
	ENSURES_EQ("Canberra", algebra::canberra_distance(a, b), can);
	ENSURES_EQ("Hamming", algebra::hamming_distance(a, b), n);
	ENSURES_EQ("discrete", algebra::discrete_distance(a, b), 1);
	NO_ERROR();
}
CONTRACT(one_difference) {
	MANY(n, "one pair of elements differs")
	const unsigned k = PROBE_POS(n);
	vec<real> a = sym_dvec("a", n), b = a;
	const real d = REAL("d"), tol = REAL("tolerance");
	REQUIRES(d > 0 && tol >= 0);
	b[k] = a[k] + d;
	ENSURES_EQ("Chebyshev", algebra::chebyshev_distance(a, b), d);
	ENSURES_EQ("Manhattan", algebra::manhattan_distance(b, a), d);
	ENSURES_EQ("Hamming", algebra::hamming_distance(a, b, tol), d > tol ? 1 : 0);
	ENSURES_EQ("discrete", algebra::discrete_distance(b, a, tol), d > tol ? 1 : 0);
	NO_ERROR();
}
CONTRACT(cosine) {
	MANY(n, "cosine distance")
	const vec<real> a = sym_dvec("a", n), b = sym_dvec("b", n);
	real aa = 0, bb = 0, ab = 0;
	for (unsigned i = 0; i < n; i++) { aa += a[i] * a[i]; bb += b[i] * b[i]; ab += a[i] * b[i]; }
	REQUIRES(aa > 1E-6 && bb > 1E-6 && aa * bb > 1E-6);
	const real c = 1 - algebra::cosine_distance(a, b);
	ENSURES_EQ("cosine of the angle", c * thv_sqrt(aa * bb), ab);
	ENSURES_EQ("distance from itself", algebra::cosine_distance(a, a) , 0);
	ENSURES_EQ("symmetric", algebra::cosine_distance(b, a), 1 - c);
}
CONTRACT(minkowski) {
	ABSTRACT1("_ZN10theoretica4rootEdi");
	BOUNDED("sizes 1 to 8, 17, 33, p = 1 to 9, 16, 33");
	const unsigned n = (unsigned) PICK_OR("size", 1, 8, 17, 33), p = (unsigned) PICK_OR("p", 1, 9, 16, 33);
	const vec<real> a = sym_dvec("a", n), b = sym_dvec("b", n);
	real s = 0;
	for (unsigned i = 0; i < n; i++) { REQUIRES(a[i] > b[i] + 0.01); s += ipow(a[i] - b[i], p); }
	ENSURES_EQ("root of the sum of powers", algebra::minkowski_distance(a, b, p), root(s, p));
	ENSURES_EQ("symmetric", algebra::minkowski_distance(b, a, p), root(s, p));
	ENSURES_EQ("of two numbers", algebra::minkowski_distance(a[0], b[0], p), root(ipow(a[0] - b[0], p), p));
}
CONTRACT(numbers) {
	const real a = REAL("a"), b = REAL("b"), c = REAL("c"), d = REAL("d");
	ENSURES_EQ("Euclidean", algebra::euclidean_distance(a, b), mod(a - b));
	ENSURES_EQ("generic", algebra::distance(a, b), mod(a - b));
	const cplx z(a, b), w(c, d), r = algebra::distance(z, w);
	ENSURES_EQ("complex", r.Re(), thv_sqrt((a - c) * (a - c) + (b - d) * (b - d)));
	ENSURES_EQ("complex", r.Im(), 0);
}
CONTRACT(fixed_distance) {
	BOUNDED("fixed vectors of size 3");
	const vec3 a = sym_vec<3>("a"), b = sym_vec<3>("b");
	real q = 0;
	for (unsigned i = 0; i < 3; i++) q += (a[i] - b[i]) * (a[i] - b[i]);
	ENSURES_EQ("generic", algebra::distance(a, b), thv_sqrt(q));
}
CONTRACT(hermitian) {
	BOUNDED("sizes 1 to 5, fixed and dynamic");
	const unsigned n = (unsigned) PICK("size", 1, 5);
	cvec a(n), b(n);
	vec<cplx, 5> u, v;
	real q = 0;
	for (unsigned i = 0; i < 5; i++) u[i] = v[i] = cplx(0, 0);
	for (unsigned i = 0; i < n; i++) {
		const real x = REAL("x"), y = REAL("y"), z = REAL("z"), w = REAL("w");
		u[i] = a[i] = cplx(x, y);
		v[i] = b[i] = cplx(z, w);
		q += (x - z) * (x - z) + (y - w) * (y - w);
	}
	REQUIRES(q > 1E-6);
	const cplx d = algebra::hermitian_distance(a, b), e = algebra::distance(u, v), f = algebra::hermitian_distance(b, a);
	ENSURES_EQ("distance", d.Re(), thv_sqrt(q));
	ENSURES_EQ("real", d.Im(), 0);
	ENSURES_EQ("fixed size", e.Re(), thv_sqrt(q));
	ENSURES_EQ("fixed size, real", e.Im(), 0);
	ENSURES_EQ("symmetric", f.Re(), thv_sqrt(q));
}
CONTRACT(sizes) {
	BOUNDED("sizes up to 3, 10, 17, 100");
	const unsigned n = (unsigned) PICK_OR("n", 1, 3, 10, 17, 100), m = (unsigned) PICK_OR("m", 1, 3, 10, 17, 100), k = (unsigned) PICK("distance", 0, 7);
	if (n == m) return;
	const vec<real> a = sym_dvec("a", n), b = sym_dvec("b", m);
	const real r = k == 0 ? algebra::euclidean_distance(a, b) : k == 1 ? algebra::manhattan_distance(a, b) : k == 2 ? algebra::chebyshev_distance(a, b) :
		k == 3 ? algebra::canberra_distance(a, b) : k == 4 ? algebra::cosine_distance(a, b) : k == 5 ? algebra::hamming_distance(a, b) :
		k == 6 ? algebra::discrete_distance(a, b) : algebra::minkowski_distance(a, b, 2);
	ENSURES_NAN("NaN", r);
	SOME_ERROR();
}
CONTRACT(sizes_complex) {
	const cvec a(2), b(3);
	ENSURES_NAN("NaN", algebra::hermitian_distance(a, b).Re());
	SOME_ERROR();
}
CONTRACT(many_elements) {
	BOUNDED(PROBES ": sizes 7, 16, 33, 100");
	const unsigned n = PICK_OR("size", 7, 7, 16, 33, 100), k = (unsigned) PICK("pattern", 0, 4), p = PROBE_POS(n);
	const vec<real> a = band_data<vec<real>>("x", n, k, p);
	vec<real> b(n);
	real l1 = 0, l2 = 0, can = 0, far = 0, big = 0;
	unsigned ham = 0;
	for (unsigned i = 0; i < n; i++) {
		b[i] = i == p ? -1 : probe_value(i, n, (k + 1) % 5);
		const real e = a[i] - b[i];
		l1 += mod(e);
		l2 += e * e;
		if (mod(e) > far) far = mod(e);
		if (mod(a[i]) > big) big = mod(a[i]);
		if (a[i] != 0 || b[i] != 0) can += mod(e) / (mod(a[i]) + mod(b[i]));
		if (e != 0) ham++;
	}
	ENSURES_EQ("maximum norm", algebra::linf_norm(a), big);
	ENSURES_EQ("Manhattan", algebra::manhattan_distance(a, b), l1);
	ENSURES_EQ("Euclidean", algebra::euclidean_distance(a, b), thv_sqrt(l2));
	ENSURES_EQ("Chebyshev", algebra::chebyshev_distance(a, b), far);
	ENSURES_EQ("Canberra", algebra::canberra_distance(a, b), can);
	ENSURES_EQ("Hamming", algebra::hamming_distance(a, b), ham);
	ENSURES_EQ("discrete", algebra::discrete_distance(a, b), ham ? 1 : 0);
	NO_ERROR();
}
