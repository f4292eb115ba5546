// quadrature with any number of steps of an arbitrary function
#include "thvany.h"
static real F(real x) { return thv_fn1("f", x); }
CONTRACT(unbounded_midpoint) {
	UNBOUNDED();
	const unsigned n = (unsigned) thv_size("n", 1);
	const real a = REAL("a"), b = REAL("b");
	errno = 0;
	const real r = integral_midpoint(F, a, b, n);
	real s = 0;
	for (unsigned i = 0; i < n; i++) s += F(a + (b - a) * (2 * (real) i + 1) / (2 * (real) n));
	ENSURES_EQ("midpoint rule", r, s * (b - a) / n);
	NO_ERROR();
}
CONTRACT(unbounded_trapezoid) {
	UNBOUNDED();
	const unsigned n = (unsigned) thv_size("n", 1);
	const real a = REAL("a"), b = REAL("b");
	errno = 0;
	const real r = integral_trapezoid(F, a, b, n);
	real s = (F(a) + F(b)) / 2;
	for (unsigned i = 1; i < n; i++) s += F(a + (b - a) * i / n);
	ENSURES_EQ("trapezoid rule", r, s * (b - a) / n);
	NO_ERROR();
}
CONTRACT(unbounded_simpson) {
	UNBOUNDED();
	const unsigned n = (unsigned) thv_size("n", 1);
	const real a = REAL("a"), b = REAL("b");
	errno = 0;
	const real r = integral_simpson(F, a, b, n);
	const unsigned m = n % 2 ? n + 1 : n, h = m / 2;
	const real d = (b - a) / (real) m;
	real even = 0, odd = 0;
	for (unsigned i = 1; i < h; i++) even += F(a + 2 * (real) i * d);
	for (unsigned i = 0; i < h; i++) odd += F(a + (2 * (real) i + 1) * d);
	ENSURES_EQ("Simpson's rule", r, d / 3 * (F(a) + F(b) + 4 * odd + 2 * even));
	NO_ERROR();
}
