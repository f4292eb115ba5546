// Vector arithmetic: every component of every operation, fixed and dynamic size.
#include "thvlib.h"

#define ALL(n, label, val, expr) { const auto& v_ = (val); ENSURES(label ": size", v_.size() == (n)); for (unsigned i = 0; i < (n); i++) ENSURES_EQ(label, v_[i], (expr)); }

template<unsigned N> static void vec_ops() {
	const vec<real, N> a = sym_vec<N>("a"), b = sym_vec<N>("b");
	const real s = REAL("s");
	errno = 0;
	ALL(N, "a + b", a + b, a[i] + b[i]);
	ALL(N, "a - b", a - b, a[i] - b[i]);
	ALL(N, "a * s", a * s, a[i] * s);
	ALL(N, "s * a", s * a, a[i] * s);
	ALL(N, "-a", -a, -a[i]);
	ALL(N, "+a", +a, a[i]);
	real d = 0, q = 0; for (unsigned i = 0; i < N; i++) { d += a[i] * b[i]; q += a[i] * a[i]; }
	ENSURES_EQ("a * b is the dot product", a * b, d);
	ENSURES_EQ("dot", a.dot(b), d);
	ENSURES_EQ("algebra::dot", algebra::dot(a, b), d);
	ENSURES_EQ("sqr_norm", a.sqr_norm(), q);
	ENSURES_EQ("norm squared", a.norm() * a.norm(), q);
	ENSURES("norm is not negative", a.norm() >= 0);
	vec<real, N> r = a; vec<real, N>* p = &(r += b); ENSURES("returns itself", p == &r); ALL(N, "a += b", r, a[i] + b[i]);
	r = a; p = &(r -= b); ENSURES("returns itself", p == &r); ALL(N, "a -= b", r, a[i] - b[i]);
	r = a; p = &(r *= s); ENSURES("returns itself", p == &r); ALL(N, "a *= s", r, a[i] * s);
	ENSURES("a == a", a == a); ENSURES("!(a != a)", !(a != a));
	unsigned k = N > 8 ? (unsigned) PICK("k", 0, 2) * (N - 1) / 2 : (unsigned) PICK("k", 0, N - 1);
	REQUIRES(a[k] != b[k]);
	ENSURES("differing component k means not equal", !(a == b)); ENSURES("!= is the negation of ==", a != b);
	NO_ERROR();
}
CONTRACT(vec1_operations) { vec_ops<1>(); }
CONTRACT(vec2_operations) { vec_ops<2>(); }
CONTRACT(vec3_operations) { vec_ops<3>(); }
CONTRACT(vec4_operations) { vec_ops<4>(); }
CONTRACT(vec5_operations) { vec_ops<5>(); }
CONTRACT(vec8_operations) { vec_ops<8>(); }
CONTRACT(vec17_operations) { vec_ops<17>(); }
CONTRACT(vec33_operations) { vec_ops<33>(); }

CONTRACT(vec_division) {
	const vec<real, 3> a = sym_vec<3>("a"); const real s = REAL("s");
	REQUIRES(s > 1E-10 || s < -1E-10);
	errno = 0;
	ALL(3, "a / s", a / s, a[i] / s);
	vec<real, 3> r = a; r /= s; ALL(3, "a /= s", r, a[i] / s);
	const vec<real> c = sym_dvec("c", 3);
	ALL(3, "dynamic a / s", c / s, c[i] / s);
	vec<real> t = c; t /= s; ALL(3, "dynamic a /= s", t, c[i] / s);
	NO_ERROR();
}
CONTRACT(vec_normalization) {
	const vec<real, 3> a = sym_vec<3>("a");
	real q = a.sqr_norm();
	REQUIRES(q > 1E-20);
	errno = 0;
	vec<real, 3> n = a.normalized(), m = a; m.normalize();
	ENSURES_EQ("unit length", n.sqr_norm(), 1.0);
	for (int i = 0; i < 3; i++) { ENSURES_EQ("parallel", n[i] * a.norm(), a[i]); ENSURES_EQ("normalize in place", m[i], n[i]); }
	NO_ERROR();
}
CONTRACT(vec_normalize_zero_is_an_error) {
	vec<real, 3> a, m;
	errno = 0; m = algebra::normalize(a); SOME_ERROR(); for (int i = 0; i < 3; i++) ENSURES_NAN("NaN", m[i]);
	errno = 0; algebra::make_normalized(a); SOME_ERROR(); for (int i = 0; i < 3; i++) ENSURES_NAN("NaN", a[i]);
	a = sym_vec<3>("a");
	errno = 0; a /= 0.0; SOME_ERROR(); for (int i = 0; i < 3; i++) ENSURES_NAN("NaN", a[i]);
}
CONTRACT(vec_cross_product) {
	const vec<real, 3> a = sym_vec<3>("a"), b = sym_vec<3>("b");
	vec<real, 3> c = a.cross(b), d = algebra::cross(a, b);
	ENSURES_EQ("x", c[0], a[1] * b[2] - a[2] * b[1]);
	ENSURES_EQ("y", c[1], a[2] * b[0] - a[0] * b[2]);
	ENSURES_EQ("z", c[2], a[0] * b[1] - a[1] * b[0]);
	for (int i = 0; i < 3; i++) ENSURES_EQ("algebra::cross", d[i], c[i]);
	ENSURES_EQ("orthogonal to a", a * c, 0.0); ENSURES_EQ("orthogonal to b", b * c, 0.0);
	ENSURES_EQ("Lagrange identity", c * c, (a * a) * (b * b) - (a * b) * (a * b));
}
CONTRACT(vec_constructors) {
	real s = REAL("s"), t = REAL("t"), u = REAL("u");
	vec<real, 3> z, c(s), d(3, s), e{s, t, u}, f = e;
	errno = 0;
	ALL(3, "default is zero", z, 0.0); ALL(3, "constant", c, s); ALL(3, "sized constant", d, s); ALL(3, "copy", f, e[i]);
	ENSURES_EQ("list 0", e[0], s); ENSURES_EQ("list 1", e[1], t); ENSURES_EQ("list 2", e[2], u);
	unsigned k = PICK("k", 0, 2);
	vec<real, 3> b = vec<real, 3>::euclidean_base(k); ALL(3, "euclidean base", b, i == k ? 1.0 : 0.0);
	e.at(k) = s + 1; ENSURES_EQ("at writes", e.get(k), s + 1); e.set(k, s); ENSURES_EQ("set writes", e[k], s);
	for (unsigned i = 0; i < 3; i++) if (i != k) ENSURES_EQ("other components untouched", e[i], f[i]);
	real sum = 0; unsigned count = 0; for (real x : f) { ENSURES_EQ("iteration order", x, f[count]); count++; } ENSURES("iteration covers all", count == 3);
	f[k] = s; for (auto it = f.begin(); it != f.end(); ++it) *it = t; ALL(3, "write through iterator", f, t);
	auto g = make_vec(s, t, u); ENSURES("make_vec size", g.size() == 3); ENSURES_EQ("make_vec", g[0], s); ENSURES_EQ("make_vec", g[1], t); ENSURES_EQ("make_vec", g[2], u);
	NO_ERROR();
	errno = 0; vec<real, 3> w{s, t}; SOME_ERROR(); ALL(3, "wrong list length gives NaN", w, nan());
	errno = 0; vec<real, 3> y = vec<real, 3>::euclidean_base(3); SOME_ERROR(); ALL(3, "base out of range gives NaN", y, nan());
}
CONTRACT(dynamic_vec_operations) {
	BOUNDED("dynamic vectors of 1 to 9 elements and of 16, 33, 65, 130 elements");
	unsigned n = PICK_OR("n", 1, 9, 16, 33, 65, 130);
	const vec<real> a = sym_dvec("a", n), b = sym_dvec("b", n);
	const real s = REAL("s");
	errno = 0;
	ALL(n, "a + b", a + b, a[i] + b[i]);
	ALL(n, "a - b", a - b, a[i] - b[i]);
	ALL(n, "a * s", a * s, a[i] * s);
	ALL(n, "s * a", s * a, a[i] * s);
	ALL(n, "-a", -a, -a[i]);
	real d = 0, q = 0; for (unsigned i = 0; i < n; i++) { d += a[i] * b[i]; q += a[i] * a[i]; }
	ENSURES_EQ("a * b is the dot product", a * b, d);
	ENSURES_EQ("sqr_norm", a.sqr_norm(), q);
	ENSURES_EQ("norm squared", a.norm() * a.norm(), q);
	vec<real> r = a; r += b; ALL(n, "a += b", r, a[i] + b[i]);
	r = a; r -= b; ALL(n, "a -= b", r, a[i] - b[i]);
	r = a; r *= s; ALL(n, "a *= s", r, a[i] * s);
	vec<real> e; e += a; ALL(n, "empty += a", e, a[i]);
	ENSURES("a == a", a == a);
	vec<real> f = a; unsigned k = PICK("k", 0, 0) % n; f[k] = s; REQUIRES(s != a[k]);
	ENSURES("differing component", f != a); ENSURES("differing component", !(f == a));
	f = a; f.push(s); ENSURES("push grows by one", f.size() == n + 1); ENSURES_EQ("push appends", f[n], s); for (unsigned i = 0; i < n; i++) ENSURES_EQ("push keeps", f[i], a[i]);
	ENSURES("different sizes are not equal", f != a);
	f.resize(n); ALL(n, "shrinking keeps", f, a[i]); f.resize(n + 2); for (unsigned i = 0; i < n + 2; i++) ENSURES_EQ("growing keeps and zero fills", f[i], i < n ? a[i] : 0.0);
	vec<real> z(n), c(n, s); ALL(n, "sized is zero", z, 0.0); ALL(n, "constant", c, s);
	ALL(n, "euclidean base", vec<real>::euclidean_base(n - 1, n), i == n - 1 ? 1.0 : 0.0);
	real sum = 0; unsigned count = 0; for (real x : a) { ENSURES_EQ("iteration", x, a[count]); count++; } ENSURES("iteration covers all", count == n);
	NO_ERROR();
}
CONTRACT(dynamic_vec_size_mismatch) {
	BOUNDED("dynamic vectors of 1 to 4, 8 and 33 elements");
	unsigned n = PICK_OR("n", 1, 4, 8, 33), m = PICK_OR("m", 1, 4, 8, 33);
	REQUIRES(n != m);
	const vec<real> a = sym_dvec("a", n), b = sym_dvec("b", m);
	errno = 0; vec<real> r = a + b; SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; r = a - b; SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; ENSURES_NAN("dot of different sizes", a * b); SOME_ERROR();
	errno = 0; r = a; r += b; SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; r = a; r -= b; SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; r = a; algebra::vec_sum(r, b); SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; r = a; algebra::vec_diff(r, b); SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; r = a; algebra::vec_sum(r, b, b); SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; r = a; algebra::vec_diff(r, b, b); SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; r = a; algebra::vec_scalmul(r, 2.0, b); SOME_ERROR(); ALL(n, "NaN", r, nan());
	errno = 0; r = a; r /= 0.0; SOME_ERROR(); ALL(n, "NaN", r, nan());
	if (n != 3) { errno = 0; vec<real> c = algebra::cross(a, a); SOME_ERROR(); ALL(3, "cross needs three components", c, nan()); }
	if (m != 3) { errno = 0; vec<real> c = algebra::cross(sym_dvec("c", 3), b); SOME_ERROR(); ALL(3, "cross needs three components", c, nan()); }
	errno = 0; vec<real> e = vec<real>::euclidean_base(n, n); SOME_ERROR(); ALL(n, "NaN", e, nan());
}
CONTRACT(vec_fixed_dynamic_conversions) {
	const vec<real, 3> a = sym_vec<3>("a"); const vec<real> b = sym_dvec("b", 3);
	errno = 0;
	vec<real> c = a; ALL(3, "dynamic from fixed", c, a[i]);
	vec<real, 3> d; d = b; ALL(3, "fixed from dynamic", d, b[i]);
	ALL(3, "dynamic + fixed", b + a, a[i] + b[i]); ALL(3, "dynamic - fixed", b - a, b[i] - a[i]);
	ENSURES_EQ("mixed dot", algebra::dot(a, b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
	d = a; algebra::vec_sum(d, b); ALL(3, "vec_sum", d, a[i] + b[i]); d = a; algebra::vec_diff(d, b); ALL(3, "vec_diff", d, a[i] - b[i]);
	vec<real, 3> e; algebra::vec_sum(e, a, b); ALL(3, "vec_sum", e, a[i] + b[i]); algebra::vec_diff(e, a, b); ALL(3, "vec_diff", e, a[i] - b[i]);
	algebra::vec_scalmul(e, 3.0, a); ALL(3, "vec_scalmul", e, 3 * a[i]); algebra::vec_scalmul(2.0, e); ALL(3, "vec_scalmul in place", e, 6 * a[i]);
	algebra::vec_zeroes(e); ALL(3, "vec_zeroes", e, 0.0);
	std::vector<real> s = sym_stdvec("s", 3); ENSURES_EQ("dot with std::vector", algebra::dot(s, a), a[0] * s[0] + a[1] * s[1] + a[2] * s[2]);
	NO_ERROR();
	errno = 0; vec<real, 3> f; f = sym_dvec("f", 4); SOME_ERROR(); ALL(3, "wrong size gives NaN", f, nan());
	errno = 0; vec<real, 3> g; g = sym_dvec("g", 2); SOME_ERROR(); ALL(3, "wrong size gives NaN", g, nan());
	errno = 0; vec<real, 3> h = sym_vec<4>("h"); SOME_ERROR(); ALL(3, "wrong size gives NaN", h, nan());
}
CONTRACT(complex_vector_inner_product) {
	vec<complex<real>, 2> v, w; complex<real> s;
	for (int i = 0; i < 2; i++) { v[i] = complex<real>(REAL("a"), REAL("b")); w[i] = complex<real>(REAL("c"), REAL("d")); }
	complex<real> d = algebra::dot(v, w);
	real re = 0, im = 0, q = 0;
	for (int i = 0; i < 2; i++) { re += v[i].Re() * w[i].Re() + v[i].Im() * w[i].Im(); im += v[i].Im() * w[i].Re() - v[i].Re() * w[i].Im(); q += v[i].Re() * v[i].Re() + v[i].Im() * v[i].Im(); }
	ENSURES_EQ("v . conj w", d.Re(), re); ENSURES_EQ("v . conj w", d.Im(), im);
	ENSURES_EQ("squared norm", algebra::sqr_norm(v).Re(), q); ENSURES_EQ("squared norm is real", algebra::sqr_norm(v).Im(), 0.0);
}

// every accessor names the element that was written through any other
template<typename V> static void accessors(V v) {
	const real x[3] = {REAL("x0"), REAL("x1"), REAL("x2")};
	const V& c = v;
	const unsigned w = (unsigned) PICK("writer", 0, 3);
	for (unsigned i = 0; i < 3; i++) { if (w == 0) v[i] = x[i]; else if (w == 1) v.at(i) = x[i]; else if (w == 2) v.set(i, x[i]); }
	if (w == 3) { unsigned k = 0; for (real& y : v) y = x[k++]; }
	unsigned n = 0; for (auto it = c.begin(); it != c.end(); ++it) ENSURES_EQ("const iterator", *it, x[n++]);
	ENSURES("covers all", n == 3);
	n = 0; for (auto it = v.begin(); it != v.end(); ++it) ENSURES_EQ("iterator", *it, x[n++]);
	for (unsigned i = 0; i < 3; i++) {
		ENSURES_EQ("const []", c[i], x[i]); ENSURES_EQ("[]", v[i], x[i]); ENSURES_EQ("get", c.get(i), x[i]); ENSURES_EQ("at", v.at(i), x[i]);
	}
	const V d = v; for (unsigned i = 0; i < 3; i++) ENSURES_EQ("copy", d[i], x[i]);
	V e; e = c; for (unsigned i = 0; i < 3; i++) ENSURES_EQ("assigned", e[i], x[i]);
	NO_ERROR();
}
CONTRACT(vec_accessors) { errno = 0; accessors(vec<real, 3>()); }
CONTRACT(dynamic_vec_accessors) { errno = 0; accessors(vec<real>(3)); }
CONTRACT(vec_member_errors) {
	const unsigned n = (unsigned) PICK("n", 0, 5);
	vec<real, 3> f = sym_vec<3>("f"); const vec<real, 3> g = f;
	errno = 0; f.resize(n); ALL(3, "resize of a fixed vector changes nothing", f, g[i]);
	if (n == 3) { NO_ERROR(); } else { SOME_ERROR(); }
	const vec<real> a = sym_dvec("a", 3), b = sym_dvec("b", n);
	errno = 0; const vec<real> c = a.cross(b), d = algebra::cross(a, b);
	ENSURES("three components", c.size() == 3);
	if (n == 3) { NO_ERROR(); for (unsigned i = 0; i < 3; i++) { ENSURES_EQ("cross", c[i], a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]); ENSURES_EQ("algebra::cross", d[i], c[i]); } }
	else { SOME_ERROR(); ALL(3, "NaN", c, nan()); errno = 0; const vec<real> e = a.cross(b); SOME_ERROR(); errno = 0; const vec<real> h = b.cross(a); SOME_ERROR(); ALL(3, "NaN", h, nan()); }
}
