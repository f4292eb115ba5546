#include "thvlib.h"
typedef quat<real> Q;
static Q sym(const char* n) { real a = REAL(n), b = REAL(n), c = REAL(n), d = REAL(n); return Q(a, b, c, d); }
static void same(const char* l, const Q& q, real a, real b, real c, real d) {
	ENSURES_EQ(l, q.Re(), a); ENSURES_EQ(l, q.Im1(), b); ENSURES_EQ(l, q.Im2(), c); ENSURES_EQ(l, q.Im3(), d);
}
static void same(const char* l, const Q& p, const Q& q) { same(l, p, q.Re(), q.Im1(), q.Im2(), q.Im3()); }
// Hamilton product
static Q ham(const Q& p, const Q& q) {
	return Q(p.a * q.a - p.b * q.b - p.c * q.c - p.d * q.d, p.a * q.b + p.b * q.a + p.c * q.d - p.d * q.c,
			 p.a * q.c - p.b * q.d + p.c * q.a + p.d * q.b, p.a * q.d + p.b * q.c - p.c * q.b + p.d * q.a);
}
CONTRACT(quat_ring) {
	Q p = sym("p"), q = sym("q"); const Q p0 = p, q0 = q; real k = REAL("k");
	same("p + q", p + q, p0.a + q0.a, p0.b + q0.b, p0.c + q0.c, p0.d + q0.d);
	same("p - q", p - q, p0.a - q0.a, p0.b - q0.b, p0.c - q0.c, p0.d - q0.d);
	same("p * q", p * q, ham(p, q));
	same("-p", -p, -p0.a, -p0.b, -p0.c, -p0.d);
	same("+p", +p, p0);
	same("p + k", p + k, p0.a + k, p0.b, p0.c, p0.d);
	same("p - k", p - k, p0.a - k, p0.b, p0.c, p0.d);
	same("p * k", p * k, p0.a * k, p0.b * k, p0.c * k, p0.d * k);
	same("k + p", k + p, p0.a + k, p0.b, p0.c, p0.d);
	same("k - p", k - p, k - p0.a, -p0.b, -p0.c, -p0.d);
	same("k * p", k * p, p0.a * k, p0.b * k, p0.c * k, p0.d * k);
	same("conjugate", p.conjugate(), p0.a, -p0.b, -p0.c, -p0.d);
	ENSURES_EQ("sqr_norm", p.sqr_norm(), p0.a * p0.a + p0.b * p0.b + p0.c * p0.c + p0.d * p0.d);
	ENSURES_EQ("norm", p.norm(), thv_sqrt(p0.a * p0.a + p0.b * p0.b + p0.c * p0.c + p0.d * p0.d));
	ENSURES_EQ("|pq|^2 = |p|^2 |q|^2", (p * q).sqr_norm(), p.sqr_norm() * q.sqr_norm());
	ENSURES_EQ("parts", Re(p), p0.a); ENSURES_EQ("parts", Im1(p), p0.b); ENSURES_EQ("parts", Im2(p), p0.c); ENSURES_EQ("parts", Im3(p), p0.d);
	same("operands unchanged", p, p0); same("operands unchanged", q, q0);
	same("real", Q(k), k, 0, 0, 0);
	std::array<real, 4> arr = {q0.a, q0.b, q0.c, q0.d};
	p = arr; same("from array", p, q0);
	NO_ERROR();
}
CONTRACT(quat_inplace) {
	const Q p = sym("p"), q = sym("q"); real k = REAL("k");
	REQUIRES(k > 1E-12 || k < -1E-12);
	Q t = p; t += q; same("+=", t, p.a + q.a, p.b + q.b, p.c + q.c, p.d + q.d);
	t = p; t -= q; same("-=", t, p.a - q.a, p.b - q.b, p.c - q.c, p.d - q.d);
	t = p; t *= q; same("*=", t, ham(p, q));
	t = p; t *= t; same("*= itself", t, ham(p, p));
	t = p; t *= k; same("*= k", t, p.a * k, p.b * k, p.c * k, p.d * k);
	t = p; t /= k; same("/= k", t, p.a / k, p.b / k, p.c / k, p.d / k);
	same("/ k", p / k, p.a / k, p.b / k, p.c / k, p.d / k);
	NO_ERROR();
}
CONTRACT(quat_associative) {
	Q p = sym("p"), q = sym("q"), r = sym("r");
	same("(pq)r = p(qr)", (p * q) * r, p * (q * r));
	same("distributive", p * (q + r), p * q + p * r);
	same("conj(pq) = conj(q) conj(p)", (p * q).conjugate(), q.conjugate() * p.conjugate());
}
CONTRACT(quat_inverse) {
	const Q p = sym("p"), q = sym("q"); real k = REAL("k");
	const real n = q.a * q.a + q.b * q.b + q.c * q.c + q.d * q.d;
	REQUIRES(n > 1E-12);
	same("q q^-1 = 1", ham(q, q.inverse()), 1, 0, 0, 0);
	same("q^-1 q = 1", ham(q.inverse(), q), 1, 0, 0, 0);
	Q t = q; t.invert(); same("invert", t, q.inverse());
	same("(p / q) q = p", ham(p / q, q), p);
	t = p; t /= q; same("/=", t, p / q);
	same("(k / q) q = k", ham(k / q, q), k, 0, 0, 0);
	NO_ERROR();
}
CONTRACT(quat_division_by_zero) {
	Q p = sym("p"), zero(0.0), r;
	switch (PICK("op", 0, 5)) {
		case 0: r = p / zero; break;
		case 1: r = p / 0.0; break;
		case 2: r = zero.inverse(); break;
		case 3: r = p; r /= zero; break;
		case 4: r = p; r /= 0.0; break;
		default: r = zero; r.invert();
	}
	ENSURES_NAN("real part", r.Re());
	SOME_ERROR();
}
// a unit quaternion acts as a rotation: lengths and scalar products are kept, composition is the product
CONTRACT(quat_transform) {
	const Q q = sym("q"); vec<real, 3> v = sym_vec<3>("v"), w = sym_vec<3>("w");
	REQUIRES(q.sqr_norm() > 1E-10);
	const vec<real, 3> a = q.transform(v), b = q.transform(w);
	const Q r = ham(ham(q, Q(0, v[0], v[1], v[2])), q.conjugate());
	const real n = q.a * q.a + q.b * q.b + q.c * q.c + q.d * q.d;
	ENSURES_EQ("q v q^-1", a[0] * n, r.b); ENSURES_EQ("q v q^-1", a[1] * n, r.c); ENSURES_EQ("q v q^-1", a[2] * n, r.d);
	ENSURES_EQ("scalar products are kept", a[0] * b[0] + a[1] * b[1] + a[2] * b[2], v[0] * w[0] + v[1] * w[1] + v[2] * w[2]);
	NO_ERROR();
}
template<typename V> static void rodrigues(V res, V v, V k, real t) {
	const real s2 = thv_sin(t / 2), c2 = thv_cos(t / 2), s = 2 * s2 * c2, c = c2 * c2 - s2 * s2;
	const real n = thv_sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]);
	const real x = k[0] / n, y = k[1] / n, z = k[2] / n, d = (x * v[0] + y * v[1] + z * v[2]) * (1 - c);
	ENSURES_EQ("rotation about the axis", res[0], v[0] * c + (y * v[2] - z * v[1]) * s + x * d);
	ENSURES_EQ("rotation about the axis", res[1], v[1] * c + (z * v[0] - x * v[2]) * s + y * d);
	ENSURES_EQ("rotation about the axis", res[2], v[2] * c + (x * v[1] - y * v[0]) * s + z * d);
}
CONTRACT(quat_rotate) {
	real t = REAL("t"); vec<real, 3> v = sym_vec<3>("v"), k = sym_vec<3>("k");
	REQUIRES(k[0] * k[0] + k[1] * k[1] + k[2] * k[2] > 1E-10);
	rodrigues(Q::rotate(v, t, k), v, k, t);
	rodrigues(Q::rotation(t, k).transform(v), v, k, t);
	NO_ERROR();
}
CONTRACT(quat_rotate_dynamic) {
	real t = REAL("t"); vec<real> v = sym_dvec("v", 3), k = sym_dvec("k", 3);
	REQUIRES(k[0] * k[0] + k[1] * k[1] + k[2] * k[2] > 1E-10);
	rodrigues(Q::rotate(v, t, k), v, k, t);
	NO_ERROR();
}
CONTRACT(quat_wrong_size) {
	const unsigned n = (unsigned) PICK("n", 0, 5);
	if (n == 3) return;
	real t = REAL("t"); vec<real> v = sym_dvec("v", n), k = sym_dvec("k", 3);
	vec<real> r;
	switch (PICK("f", 0, 2)) {
		case 0: r = Q::rotate(v, t, k); break;
		case 1: r = Q::rotate(k, t, v); break;
		default: r = sym("q").transform(v);
	}
	for (unsigned i = 0; i < r.size(); i++) ENSURES_NAN("NaN result", r[i]);
	SOME_ERROR();
}
