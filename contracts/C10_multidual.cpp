// Multivariate dual numbers and the differential operators built on them.
#include "thvlib.h"

#define SYMN(N) real a = REAL("a"), c = REAL("c"); const vec<real, N> u = sym_vec<N>("u"), w = sym_vec<N>("w"); const multidual<N> x(a, u), y(c, w);
#define ISN(N, label, val, re, du) { multidual<N> v_ = (val); ENSURES_EQ(label ": value", v_.Re(), (re)); \
	for (unsigned i = 0; i < N; i++) ENSURES_EQ(label ": gradient", v_.Dual()[i], (du)); }
#define IS(label, val, re, du) ISN(3, label, val, re, du)

CONTRACT(multidual_ring) {
	SYMN(3)
	IS("x + y", x + y, a + c, u[i] + w[i]);
	IS("x - y", x - y, a - c, u[i] - w[i]);
	IS("x * y", x * y, a * c, a * w[i] + c * u[i]);
	IS("+x", +x, a, u[i]);
	IS("-x", -x, -a, -u[i]);
	IS("x + r", x + c, a + c, u[i]);
	IS("r + x", c + x, a + c, u[i]);
	IS("x - r", x - c, a - c, u[i]);
	IS("r - x", c - x, c - a, -u[i]);
	IS("x * r", x * c, a * c, u[i] * c);
	IS("r * x", c * x, a * c, u[i] * c);
	IS("conjugate", x.conjugate(), a, -u[i]);
	IS("square", square(x), a * a, 2 * a * u[i]);
	IS("cube", cube(x), a * a * a, 3 * a * a * u[i]);
}
CONTRACT(multidual_division) {
	SYMN(3)
	REQUIRES(c != 0);
	errno = 0;
	IS("x / y", x / y, a / c, (u[i] * c - a * w[i]) / (c * c));
	IS("x / r", x / c, a / c, u[i] / c);
	IS("r / y", a / y, a / c, -a * w[i] / (c * c));
	IS("inverse", y.inverse(), 1 / c, -w[i] / (c * c));
	multidual<3> r = x; r /= y; IS("x /= y", r, a / c, (u[i] * c - a * w[i]) / (c * c));
	r = y; r /= r; IS("y /= y", r, 1.0, 0.0);
	NO_ERROR();
}
CONTRACT(multidual_inplace) {
	SYMN(3)
	multidual<3> r = x; multidual<3>* p = &(r += y); ENSURES("returns itself", p == &r); IS("x += y", r, a + c, u[i] + w[i]);
	r = x; p = &(r -= y); ENSURES("returns itself", p == &r); IS("x -= y", r, a - c, u[i] - w[i]);
	r = x; p = &(r *= y); ENSURES("returns itself", p == &r); IS("x *= y", r, a * c, a * w[i] + c * u[i]);
	r = x; r += c; IS("x += r", r, a + c, u[i]);
	r = x; r -= c; IS("x -= r", r, a - c, u[i]);
	r = x; r *= c; IS("x *= r", r, a * c, u[i] * c);
	r = x; r = c; IS("x = r", r, c, 0.0);
	IS("operands unchanged", y, c, w[i]);
	r = x; r *= r; IS("x *= x", r, a * a, 2 * a * u[i]);
	ENSURES("x == x", r == r);
}
CONTRACT(multidual_errors) {
	SYMN(3)
	errno = 0;
	multidual<3> r = multidual<3>(0, w).inverse();
	ENSURES("inverse of a zero real part is an error", errno != 0);
	ENSURES_NAN("NaN", r.Re()); for (int i = 0; i < 3; i++) ENSURES_NAN("NaN", r.Dual()[i]);
	errno = 0; r = x / multidual<3>(0, w);
	ENSURES("division by a zero real part is an error", errno != 0);
	ENSURES_NAN("NaN", r.Re()); for (int i = 0; i < 3; i++) ENSURES_NAN("NaN", r.Dual()[i]);
}
CONTRACT(multidual_dynamic) {
	BOUNDED("dynamic dual part of size 1 to 8, 16 and 33");
	const unsigned n = PICK_OR("n", 1, 8, 16, 33);
	real a = REAL("a"), c = REAL("c");
	vec<real> u = sym_dvec("u", n), w = sym_dvec("w", n);
	multidual<> x(a, u), y(c, w);
	REQUIRES(c != 0);
#define DYN(label, val, re, du) { multidual<> v_ = (val); ENSURES_EQ(label ": value", v_.Re(), (re)); ENSURES(label ": size", v_.size() == n); \
	for (unsigned i = 0; i < n; i++) ENSURES_EQ(label ": gradient", v_.Dual()[i], (du)); }
	errno = 0;
	DYN("x + y", x + y, a + c, u[i] + w[i]);
	DYN("x - y", x - y, a - c, u[i] - w[i]);
	DYN("x * y", x * y, a * c, a * w[i] + c * u[i]);
	DYN("x / y", x / y, a / c, (u[i] * c - a * w[i]) / (c * c));
	multidual<> r = x; r *= y; DYN("x *= y", r, a * c, a * w[i] + c * u[i]);
	DYN("sin", sin(x), thv_sin(a), thv_cos(a) * u[i]);
	NO_ERROR();
	errno = 0; r = multidual<>(0, w).inverse();
	ENSURES("inverse of a zero real part is an error", errno != 0);
	ENSURES_NAN("NaN", r.Re()); ENSURES("error value keeps the size", r.size() == n); for (unsigned i = 0; i < n; i++) ENSURES_NAN("NaN", r.Dual()[i]);
	errno = 0; r = ln(multidual<>(-1, w));
	ENSURES("logarithm of a negative number is an error", errno != 0);
	ENSURES_NAN("NaN", r.Re()); ENSURES("error value keeps the size", r.size() == n); for (unsigned i = 0; i < n; i++) ENSURES_NAN("NaN", r.Dual()[i]);
	vec<real> p = sym_dvec("p", n);
	vec<multidual<>> arg = multidual<>::make_argument(p);
	ENSURES("make_argument: size", arg.size() == n);
	vec<real> q = multidual<>::extract_real(arg);
	ENSURES("extract_real: size", q.size() == n);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("extract_real", q[i], p[i]);
	mat<real> J = multidual<>::extract_dual(arg);
	ENSURES("extract_dual: size", J.rows() == n && J.cols() == n);
	for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) ENSURES_EQ("make_argument seeds the identity", J(i, j), i == j ? 1.0 : 0.0);
}
#define FUN(name, f, pre, deriv) CONTRACT(multidual_##name) { \
	real x = REAL("x"); vec<real, 2> u = sym_vec<2>("u"); REQUIRES(pre); \
	errno = 0; multidual<2> r = f(multidual<2>(x, u)); NO_ERROR(); \
	ENSURES_EQ(#name ": value", r.Re(), f(x)); \
	ENSURES_EQ(#name ": gradient", r.Dual()[0], u[0] * (deriv)); ENSURES_EQ(#name ": gradient", r.Dual()[1], u[1] * (deriv)); }
#define EX thv_exp(x)
#define S thv_sin(x)
#define K thv_cos(x)
FUN(sin, sin, true, K)
FUN(cos, cos, true, -S)
FUN(tan, tan, K > 1E-15 || K < -1E-15, 1 / (K * K))
FUN(cot, cot, S > 1E-15 || S < -1E-15, -1 / (S * S))
FUN(exp, exp, true, EX)
FUN(ln, ln, x > 0, 1 / x)
FUN(log2, log2, x > 0, (real) LOG2E / x)
FUN(log10, log10, x > 0, (real) LOG10E / x)
FUN(sqrt, sqrt, x > 0, 0.5 / thv_sqrt(x))
FUN(abs, abs, x != 0, (x > 0 ? 1.0 : -1.0))
FUN(asin, asin, x > -1 && x < 1, 1 / thv_sqrt(1 - x * x))
FUN(acos, acos, x > -1 && x < 1, -1 / thv_sqrt(1 - x * x))
FUN(atan, atan, true, 1 / (1 + x * x))
FUN(sinh, sinh, true, (EX + 1 / EX) / 2)
FUN(cosh, cosh, true, (EX - 1 / EX) / 2)
FUN(tanh, tanh, true, 4 / ((EX + 1 / EX) * (EX + 1 / EX)))
CONTRACT(multidual_pow) {
	BOUNDED(EXPONENTS);
	const int n = ANY_EXPONENT();
	real x = REAL("x"); vec<real, 2> u = sym_vec<2>("u"); REQUIRES(x != 0);
	multidual<2> r = pow(multidual<2>(x, u), n);
	real p = 1; for (int i = 0; i < (n < 0 ? -n : n); i++) p *= x;
	if (n < 0) p = 1 / p;
	ENSURES_EQ("pow: value", r.Re(), p);
	for (int i = 0; i < 2; i++) ENSURES_EQ("pow: gradient", r.Dual()[i], n * p / x * u[i]);
}
#define BADDOM(name, f, pre) CONTRACT(multidual_##name##_domain) { \
	real x = REAL("x"); vec<real, 2> u = sym_vec<2>("u"); REQUIRES(pre); \
	errno = 0; multidual<2> r = f(multidual<2>(x, u)); SOME_ERROR(); \
	ENSURES_NAN(#name ": NaN outside the domain", r.Re()); ENSURES_NAN(#name ": NaN outside the domain", r.Dual()[0]); ENSURES_NAN(#name ": NaN outside the domain", r.Dual()[1]); }
BADDOM(ln, ln, x <= 0)
BADDOM(log2, log2, x <= 0)
BADDOM(log10, log10, x <= 0)
BADDOM(sqrt, sqrt, x <= 0)
BADDOM(asin, asin, x >= 1 || x <= -1)
BADDOM(acos, acos, x >= 1 || x <= -1)
BADDOM(tan, tan, K == 0)
BADDOM(cot, cot, S == 0)

// arbitrary differentiable functions: value f_k and partial derivatives d_kj are uninterpreted
static const char* const FN[3] = {"f0", "f1", "f2"};
static const char* const DN[3][3] = {{"d00", "d01", "d02"}, {"d10", "d11", "d12"}, {"d20", "d21", "d22"}};
template<unsigned N> static multidual<N> generic(int k, const vec<multidual<N>, N>& v) {
	real p = v[0].Re(), q = v[1].Re(), r = v[2].Re();
	multidual<N> res(thv_fn3(FN[k], p, q, r), v[0].Dual() * thv_fn3(DN[k][0], p, q, r) + v[1].Dual() * thv_fn3(DN[k][1], p, q, r) + v[2].Dual() * thv_fn3(DN[k][2], p, q, r));
	return res;
}
static multidual<3> scalar3(vec<multidual<3>, 3> v) { return generic<3>(0, v); }
static multidual<3> scalar3b(vec<multidual<3>, 3> v) { return generic<3>(1, v); }
static vec<multidual<3>, 3> field3(vec<multidual<3>, 3> v) { vec<multidual<3>, 3> r; for (int k = 0; k < 3; k++) r[k] = generic<3>(k, v); return r; }
static vec<multidual<3>, 2> field32(vec<multidual<3>, 3> v) { vec<multidual<3>, 2> r; for (int k = 0; k < 2; k++) r[k] = generic<3>(k, v); return r; }
static vec<multidual<0>> dynfield(vec<multidual<0>> v) { vec<multidual<0>> r; r.resize(2); for (int k = 0; k < 2; k++) r[k] = generic<0>(k, v); return r; }
#define D(k, j) thv_fn3(DN[k][j], x[0], x[1], x[2])

CONTRACT(deriv_of_any_function) {
	real x = REAL("x");
	auto f = [](dual t) -> dual { return dual(thv_fn1("f", t.Re()), thv_fn1("df", t.Re()) * t.Dual()); };
	ENSURES_EQ("deriv(f, x)", autodiff::deriv(f, x), thv_fn1("df", x));
	ENSURES_EQ("deriv(f)(x)", autodiff::deriv(f)(x), thv_fn1("df", x));
	auto g = [f](dual t) -> dual { return f(f(t)); };
	ENSURES_EQ("chain rule", autodiff::deriv(g, x), thv_fn1("df", thv_fn1("f", x)) * thv_fn1("df", x));
}
CONTRACT(gradient_of_any_field) {
	vec<real, 3> x = sym_vec<3>("x");
	vec<real, 3> g = autodiff::gradient(scalar3, x), h = autodiff::gradient(scalar3)(x);
	for (int j = 0; j < 3; j++) { ENSURES_EQ("gradient(f, x)", g[j], D(0, j)); ENSURES_EQ("gradient(f)(x)", h[j], D(0, j)); }
}
CONTRACT(divergence_of_any_field) {
	vec<real, 3> x = sym_vec<3>("x");
	ENSURES_EQ("divergence", autodiff::divergence(scalar3, x), D(0, 0) + D(0, 1) + D(0, 2));
	ENSURES_EQ("divergence(f)(x)", autodiff::divergence(scalar3)(x), D(0, 0) + D(0, 1) + D(0, 2));
}
CONTRACT(jacobian_of_any_field) {
	vec<real, 3> x = sym_vec<3>("x");
	errno = 0;
	mat<real, 3, 3> J = autodiff::jacobian<3, 3>(field3, x), L = autodiff::jacobian<3, 3>(field3)(x);
	for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) { ENSURES_EQ("J(k, j) = df_k / dx_j", J(k, j), D(k, j)); ENSURES_EQ("jacobian(f)(x)", L(k, j), D(k, j)); }
	mat<real, 2, 3> K2 = autodiff::jacobian<3, 2>(field32, x);
	for (int k = 0; k < 2; k++) for (int j = 0; j < 3; j++) ENSURES_EQ("rectangular jacobian", K2(k, j), D(k, j));
	NO_ERROR();
}
CONTRACT(jacobian_dynamic) {
	BOUNDED("dynamic sizes: 3 variables, 2 components");
	vec<real> x = sym_dvec("x", 3);
	errno = 0;
	mat<real> J = autodiff::jacobian<0, 0>(dynfield, x);
	ENSURES("size", J.rows() == 2 && J.cols() == 3);
	for (int k = 0; k < 2; k++) for (int j = 0; j < 3; j++) ENSURES_EQ("J(k, j) = df_k / dx_j", J(k, j), D(k, j));
	NO_ERROR();
}
CONTRACT(curl_of_any_field) {
	vec<real, 3> x = sym_vec<3>("x");
	vec<real, 3> c = autodiff::curl<3>(field3, x), e = autodiff::curl<3>(field3)(x);
	ENSURES_EQ("curl x", c[0], D(2, 1) - D(1, 2)); ENSURES_EQ("curl y", c[1], D(0, 2) - D(2, 0)); ENSURES_EQ("curl z", c[2], D(1, 0) - D(0, 1));
	for (int i = 0; i < 3; i++) ENSURES_EQ("curl(f)(x)", e[i], c[i]);
}
CONTRACT(directional_derivative_of_any_field) {
	vec<real, 3> x = sym_vec<3>("x"), v = sym_vec<3>("v");
	vec<real, 3> d = autodiff::directional_derivative<3>(scalar3, x, v), e = autodiff::directional_derivative<3>(scalar3, v)(x);
	real s = D(0, 0) * v[0] + D(0, 1) * v[1] + D(0, 2) * v[2];
	for (int i = 0; i < 3; i++) { ENSURES_EQ("v (v . grad f)", d[i], v[i] * s); ENSURES_EQ("directional_derivative(f, v)(x)", e[i], v[i] * s); }
}
static multidual<2> ham(int k, vec<multidual<2>, 2>& v) {
	real p = v[0].Re(), q = v[1].Re();
	return multidual<2>(thv_fn2(FN[k], p, q), v[0].Dual() * thv_fn2(DN[k][0], p, q) + v[1].Dual() * thv_fn2(DN[k][1], p, q));
}
static multidual<2> ham0(vec<multidual<2>, 2> v) { return ham(0, v); }
static multidual<2> ham1(vec<multidual<2>, 2> v) { return ham(1, v); }
CONTRACT(sturm_liouville_is_the_poisson_bracket) {
	vec<real, 2> x = sym_vec<2>("x");
	real f0 = thv_fn2("d00", x[0], x[1]), f1 = thv_fn2("d01", x[0], x[1]), h0 = thv_fn2("d10", x[0], x[1]), h1 = thv_fn2("d11", x[0], x[1]);
	ENSURES_EQ("grad f . S . grad H", autodiff::sturm_liouville<2>(ham0, ham1, x), f0 * h1 - f1 * h0);
}

static vec<multidual<>> dynfield_n(vec<multidual<>> x) { vec<multidual<>> y = x; if (x.size() == 3) for (unsigned k = 0; k < 3; k++) y[k] = generic<0>(k, x); return y; }
CONTRACT(curl_dynamic) {
	BOUNDED("dynamic fields of 1 to 4 components");
	const unsigned n = (unsigned) PICK("n", 1, 4);
	const vec<real> x = sym_dvec("x", n);
	errno = 0;
	const vec<real> c = autodiff::curl<0>(dynfield_n, x);
	ENSURES("size", c.size() == n);
	if (n == 3) { ENSURES_EQ("curl x", c[0], D(2, 1) - D(1, 2)); ENSURES_EQ("curl y", c[1], D(0, 2) - D(2, 0)); ENSURES_EQ("curl z", c[2], D(1, 0) - D(0, 1)); NO_ERROR(); }
	else { SOME_ERROR(); for (unsigned i = 0; i < n; i++) ENSURES_NAN("NaN", c[i]); }
}
