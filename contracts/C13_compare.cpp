#include "thvlib.h"
// Comparison and rounding functions, bit-precise over every double (NaN and infinities included where stated).
CONTRACT(floor_ieee) {
	IEEE();
	const real x = ANYDOUBLE("x");
	REQUIRES(x > -2147483648.0 && x < 2147483648.0);
	const int n = floor(x);
	ENSURES("n <= x", (real) n <= x);
	ENSURES("x < n + 1", x < (real) n + 1.0);
	ENSURES("errno unchanged", errno == 0);
}
CONTRACT(floor_real) {
	const real x = REAL("x");
	REQUIRES(x > -2147483648.0 && x < 2147483648.0);
	const int n = floor(x);
	ENSURES("n <= x < n + 1", (real) n <= x && x < (real) n + 1.0);
}
CONTRACT(fract_ieee) {
	IEEE();
	const real x = ANYDOUBLE("x");
	REQUIRES(x > -2147483648.0 && x < 2147483648.0);
	const real f = fract(x);
	ENSURES("0 <= fract <= 1", f >= 0 && f <= 1);
	ENSURES("null for integers only", (f == 0) == ((real) (int) x == x));
}
CONTRACT(fract_real) {
	const real x = REAL("x");
	REQUIRES(x > -2147483648.0 && x < 2147483648.0);
	const real f = fract(x);
	ENSURES("0 <= fract < 1", f >= 0 && f < 1);
	ENSURES_EQ("integer plus fractional part", floor(x) + f, x);
}
CONTRACT(abs_ieee) {
	IEEE();
	const real x = ANYDOUBLE("x");
	const real a = abs(x);
	ENSURES("x or -x, not negative", x >= 0 ? a == x : (x < 0 ? a == -x : a != a));
}
CONTRACT(sgn_ieee) {
	IEEE();
	const real x = ANYDOUBLE("x");
	const int s = sgn(x);
	ENSURES("sign", x > 0 ? s == 1 : (x < 0 ? s == -1 : s == 0));
}
CONTRACT(heaviside_ieee) {
	IEEE();
	const real x = ANYDOUBLE("x");
	REQUIRES(x == 0 || x > 1E-15 || x < -1E-15);
	const real h = heaviside(x);
	ENSURES("step", h == (x > 0 ? 1.0 : (x < 0 ? 0.0 : 0.5)));
}
template<typename T> static void extremes(T x, T y) {
	const T M = max(x, y), m = min(x, y);
	ENSURES("max is one of the two and not smaller than either", (M == x || M == y) && M >= x && M >= y);
	ENSURES("min is one of the two and not greater than either", (m == x || m == y) && m <= x && m <= y);
}
CONTRACT(extremes_ieee) {
	IEEE();
	const real x = ANYDOUBLE("x"), y = ANYDOUBLE("y");
	REQUIRES(x == x && y == y);
	extremes<real>(x, y);
	const real M = th::max(x, y), m = th::min(x, y);
	ENSURES("max", M == (x < y ? y : x));
	ENSURES("min", m == (x < y ? x : y));
}
CONTRACT(extremes_int) {
	extremes<int>(thv_i32("x", -2147483647 - 1, 2147483647), thv_i32("y", -2147483647 - 1, 2147483647));
}
CONTRACT(extremes_unsigned) {
	extremes<uint64_t>(thv_u64("x", 0, ~uint64_t(0)), thv_u64("y", 0, ~uint64_t(0)));
}
template<typename T> static void clamped(T x, T a, T b) {
	REQUIRES(a <= b);
	const T c = clamp(x, a, b);
	ENSURES("inside of the interval", c >= a && c <= b);
	ENSURES("unchanged inside", !(x >= a && x <= b) || c == x);
	ENSURES("lower bound", !(x < a) || c == a);
	ENSURES("upper bound", !(x > b) || c == b);
}
CONTRACT(clamp_ieee) {
	IEEE();
	const real x = ANYDOUBLE("x"), a = ANYDOUBLE("a"), b = ANYDOUBLE("b");
	REQUIRES(x == x);
	clamped<real>(x, a, b);
	const real c = th::clamp(x, a, b);
	ENSURES("non-template form", c == (x > b ? b : (x < a ? a : x)));
}
CONTRACT(clamp_int) {
	clamped<int>(thv_i32("x", -2147483647 - 1, 2147483647), thv_i32("a", -2147483647 - 1, 2147483647), thv_i32("b", -2147483647 - 1, 2147483647));
}
CONTRACT(squares) {
	const real x = REAL("x");
	ENSURES_EQ("square", square(x), x * x);
	ENSURES_EQ("cube", cube(x), x * x * x);
	ENSURES_EQ("identity", identity(x), x);
	ENSURES_EQ("conjugate", conjugate(x), x);
}
CONTRACT(squares_ieee) {
	IEEE();
	const real x = ANYDOUBLE("x");
	REQUIRES(x == x);
	ENSURES("square is not negative", square(x) >= 0);
	ENSURES("identity", identity(x) == x);
	ENSURES("conjugate", conjugate(x) == x);
}
