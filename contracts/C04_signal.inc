// Error signalling in one configuration: MODE 0 errno (default), 1 errno and exceptions, 2 exceptions only
#include "thvlib.h"
#include <exception>
#define CONTRACT_M_(name, mode) CONTRACT(name##mode)
#define CONTRACT_M(name, mode) CONTRACT_M_(name, mode)
enum { errno_only = 0, errno_throw = 1, only_throw = 2 };
#if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
#define HAS_THROW
#endif
static bool eq(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
// what happened in a call
struct Outcome { bool thrown; int code; bool named; real value; int err; real result; };
template<typename Function> static Outcome attempt(Function f, const char* name) {
	Outcome o = {false, 0, false, 0, 0, 0};
	errno = 0;
#ifdef HAS_THROW
	try {
		o.result = f();
	} catch (const math_exception& e) {
		o.thrown = true;
		o.code = e.err_code();
		o.named = eq(e.get_function_name().c_str(), name) && e.get_line_number() > 0 && e.get_file_name().size() > 0;
		o.value = e.get_value();
	}
#else
	o.result = f();
#endif
	o.err = errno;
	return o;
}
static void reported(const char* label, const Outcome& o, int code, int err) {
	(void) label;
	if (MODE == errno_only) {
		ENSURES("no exception is thrown", !o.thrown);
		ENSURES_NAN("the result is NaN", o.result);
	} else {
		ENSURES("a math_exception is thrown", o.thrown);
		ENSURES("error code", o.code == code);
		ENSURES("function name and position", o.named);
	}
	ENSURES("errno", o.err == (MODE == only_throw ? 0 : err));
}
CONTRACT_M(domain_, MODE) {
	const real x = REAL("x");
	REQUIRES(x < 0);
	const Outcome o = attempt([=]() { return th::sqrt(x); }, "sqrt"), l = attempt([=]() { return th::ln(x); }, "ln");
	reported("sqrt", o, OUT_OF_DOMAIN, EDOM);
	if (MODE) ENSURES_EQ("value", o.value, x);
	reported("ln", l, OUT_OF_DOMAIN, EDOM);
	if (MODE) ENSURES_EQ("value", l.value, x);
}
CONTRACT_M(asin_, MODE) {
	const real x = REAL("x");
	REQUIRES(x > 1 || x < -1);
	reported("asin", attempt([=]() { return th::asin(x); }, "asin"), OUT_OF_DOMAIN, EDOM);
	reported("acos", attempt([=]() { return th::acos(x); }, "acos"), OUT_OF_DOMAIN, EDOM);
}
CONTRACT_M(invalid_argument_, MODE) {
	const vec<real> t = sym_dvec("t", (unsigned) PICK("n", 3, 4));
	const real x = REAL("x");
	reported("parameters", attempt([&]() { return distribution::gaussian(x, t); }, "distribution::gaussian"), INVALID_ARGUMENT, EINVAL);
}
CONTRACT_M(division_by_zero_, MODE) {
	const real x = REAL("x");
	REQUIRES(x >= 0);
	reported("rayleigh", attempt([=]() { return distribution::rayleigh(x, 0); }, "distribution::rayleigh"), DIV_BY_ZERO, ERANGE);
}
static real one(real) { return 1; }
CONTRACT_M(no_convergence_, MODE) {
	const real x = REAL("x");
	reported("Newton", attempt([=]() { return root_newton(one, one, x, 1E-8, 3u); }, "root_newton"),
		NO_ALGO_CONVERGENCE, ERANGE);
}
CONTRACT_M(impossible_, MODE) {
	BOUNDED("data sets of 2 and 3 elements");
	const vec<real> a = sym_dvec("a", 2), b = sym_dvec("b", 3);
	errno = 0;
	bool thrown = false;
#ifdef HAS_THROW
	try { (void) (a * b); } catch (const math_exception& e) { thrown = e.err_code() == INVALID_ARGUMENT; }
#else
	const real r = a * b;
	ENSURES_NAN("the result is NaN", r);
#endif
	ENSURES("thrown", thrown == (MODE != errno_only));
	ENSURES("errno", errno == (MODE == only_throw ? 0 : EINVAL));
}
// A catalogue of error conditions over the library: the class of the error, with arguments of every module
static real F1(real x) { return thv_fn1("f", x); }
static real sum2(const mat<real>& A) { return A(0, 0); }
CONTRACT_M(catalogue_, MODE) {
	BOUNDED("one error condition of each of 40 functions, small sizes");
	const unsigned k = (unsigned) PICK("case", 0, 39);
	const real x = REAL("x");
	const vec<real> e(0), u = sym_dvec("u", 2), v = sym_dvec("v", 3);
	const vec<real, 2> z2 = {0, 0};
	const mat<real> A = sym_dmat("A", 2, 3), Z(0.0, 2, 2);
	const std::vector<real> s0, s2 = sym_stdvec("s", 2), s3 = sym_stdvec("t", 3);
	(void) Z;
	int err = 0;
	const Outcome o = attempt([&]() -> real { switch (k) {
		case 0: err = EDOM; REQUIRES(x < -1 || x > 1); return th::atanh(x);
		case 1: err = EDOM; REQUIRES(x < 1); return th::acosh(x);
		case 2: err = ERANGE; return th::cot(0.0);
		case 3: err = ERANGE; return th::coth(0.0);
		case 4: err = EDOM; return th::atan2(0.0, 0.0);
		case 5: err = EDOM; REQUIRES(x < 0); return th::root(x, 2);
		case 6: err = EDOM; REQUIRES(x < 0); return th::log2(x);
		case 7: err = EDOM; REQUIRES(x < 0); return th::log10(x);
		case 8: err = ERANGE; return th::inverse(complex<real>(0, 0)).Re();
		case 9: err = ERANGE; return dual(0, x).inverse().Re();
		case 10: err = ERANGE; return dual2(0, x, x).inverse().Re();
		case 11: err = ERANGE; return algebra::normalize(z2)[0];
		case 12: err = EINVAL; return sum2(algebra::inverse(A));
		case 13: err = EINVAL; return algebra::det(A);
		case 14: err = EINVAL; return algebra::solve(A, u)[0];
		case 15: err = EINVAL; return (A * u)[0];
		case 16: err = EINVAL; return (A + Z)(0, 0);
		case 17: err = EINVAL; return algebra::cross(u, v)[0];
		case 18: err = EDOM; return algebra::inverse(Z)(0, 0);
		case 19: err = ERANGE; return stats::mean(e);
		case 20: err = EINVAL; return stats::covariance(u, v);
		case 21: err = EINVAL; return algebra::euclidean_distance(u, v);
		case 22: err = EINVAL; return algebra::manhattan_distance(u, v);
		case 23: err = ERANGE; return integral_midpoint(F1, 0, 1, 0);
		case 24: err = ERANGE; return integral_trapezoid(F1, 0, 1, 0);
		case 25: err = ERANGE; return integral_simpson(F1, 0, 1, 0);
		case 26: err = EINVAL; return integral_gauss(F1, s2, s3);
		case 27: err = EINVAL; return integral_laguerre(F1, 3);
		case 28: err = EINVAL; REQUIRES(F1(0) > 0 && F1(1) > 0); return root_bisect(F1, 0, 1);
		case 29: err = EINVAL; REQUIRES(F1(0) > 0 && F1(1) > 0); return root_itp(F1, 0, 1);
		case 30: err = EINVAL; REQUIRES(x < 0 || x > 1); return bezier(std::vector<vec<real, 2>>{z2, z2}, x)[0];
		case 31: err = EDOM; return special::half_gamma(0);
		case 32: err = EDOM; REQUIRES(x <= 0); return distribution::pareto(1, 1, x);
		case 33: err = EINVAL; return distribution::erlang(x, 0u, 1);
		case 34: err = EINVAL; return distribution::multinomial({1, 2}, 3, 2, s3);
		case 35: err = EDOM; return assoc_legendre_polynomial_even(3, 1)[0];
		case 36: err = EINVAL; return stats::correlation_coefficient(u, v);
		case 37: err = EDOM; REQUIRES(x < 0); return th::sqrt(dual(x, 1)).Re();
		case 38: err = EDOM; REQUIRES(x < 0); return th::ln(dual2(x, 1, 0)).Re();
		default: err = ERANGE; return (complex<real>(x, 1) / 0.0).Re();
	} }, "");
	ENSURES("thrown exactly when exceptions are enabled", o.thrown == (MODE != errno_only));
	if (!o.thrown) ENSURES_NAN("the result is NaN", o.result);
	ENSURES("errno", o.err == (MODE == only_throw ? 0 : err));
}
CONTRACT_M(quiet_, MODE) {
	const real x = REAL("x");
	REQUIRES(x > 0 && x < 1);
	const Outcome o = attempt([=]() { return th::sqrt(x) + th::asin(x) + th::ln(x); }, "");
	ENSURES("valid calls neither throw nor set errno", !o.thrown && o.err == 0 && thv_isfinite(o.result));
}
#ifdef HAS_THROW
CONTRACT_M(base_, MODE) {
	const real x = REAL("x");
	REQUIRES(x < 0);
	int k = 0;
	try {
		(void) th::sqrt(x);
		k = 1;
	} catch (const std::exception& e) {
		k = eq(e.what(), "An argument was out of the domain of the called function") ? 2 : 3;
	}
	ENSURES("caught as std::exception, with its description", k == 2);
}
CONTRACT_M(description_, MODE) {
	static const char* const D[] = {"Division by zero", "An argument was out of the domain of the called function", "The result would be out of range",
		"A mathematically impossible operation was requested", "The algorithm did not converge", "Invalid argument size or value"};
	const unsigned k = (unsigned) PICK("k", 0, 5);
	const math_exception e(MATH_ERRCODE(1 << k), "f", "file", 7, 3.5);
	ENSURES("description", eq(e.what(), D[k]));
	ENSURES("contents", e.err_code() == (1 << k) && eq(e.get_function_name().c_str(), "f") && eq(e.get_file_name().c_str(), "file") && e.get_line_number() == 7);
	ENSURES_EQ("value", e.get_value(), 3.5);
}
// Objects alive when the error is thrown are destroyed: the verifier reports leaks
CONTRACT_M(unwinding_, MODE) {
	BOUNDED("matrices of size 2 and 3");
	const mat<real> A = sym_dmat("A", 2, 3);
	bool thrown = false;
	try {
		const mat<real> B = algebra::inverse(A);
		(void) B;
	} catch (const math_exception& e) { thrown = true; }
	ENSURES("thrown", thrown);
}
#endif
CONTRACT_M(codes_, MODE) {
	ENSURES("errno of each code", th_errcode_to_errno(theoretica::NO_ERROR) == 0 && th_errcode_to_errno(DIV_BY_ZERO) == ERANGE && th_errcode_to_errno(OUT_OF_DOMAIN) == EDOM
		&& th_errcode_to_errno(OUT_OF_RANGE) == ERANGE && th_errcode_to_errno(IMPOSSIBLE_OPERATION) == EDOM
		&& th_errcode_to_errno(NO_ALGO_CONVERGENCE) == ERANGE && th_errcode_to_errno(INVALID_ARGUMENT) == EINVAL);
}
CONTRACT_M(special_values_, MODE) {
	IEEE();
	const double x = ANYDOUBLE("x");
	ENSURES("is_nan", is_nan(x) == (thv_isnan(x) != 0));
	ENSURES("is_inf", is_inf(x) == (thv_isinf(x) != 0));
	ENSURES("nan", thv_isnan(th::nan()) && !(th::nan() == th::nan()));
	ENSURES("inf", th::inf() > 1.7976931348623157e308 && -th::inf() < -1.7976931348623157e308);
}
