#include "thvlib.h"
// ---- functions of small integer types: every value of the type
template<typename U> static void isqrt_ok(U n) {
	const uint64_t r = isqrt<U>(n), N = n;
	ENSURES("r^2 <= n < (r + 1)^2", r * r <= N && N < (r + 1) * (r + 1));
}
template<typename U> static void icbrt_ok(U n) {
	const uint64_t r = icbrt<U>(n), N = n;
	ENSURES("r^3 <= n < (r + 1)^3", r * r * r <= N && N < (r + 1) * (r + 1) * (r + 1));
}
CONTRACT(isqrt_uint8) { isqrt_ok<uint8_t>((uint8_t) PICK("n", 0, 255)); }
CONTRACT(icbrt_uint8) { icbrt_ok<uint8_t>((uint8_t) PICK("n", 0, 255)); }
// 64 bits: values around squares/cubes and powers of two, and the biggest values
static uint64_t edge64() {
	const uint64_t k = (uint64_t) PICK("k", 0, 63), d = (uint64_t) PICK("d", 0, 4);
	return (uint64_t(1) << k) + d - 2;      // 2^k - 2 ... 2^k + 2 (wraps to the biggest values for k = 0)
}
CONTRACT(isqrt_uint64_edges) {
	BOUNDED("64-bit isqrt: n = 2^k + d and (2^k + d)^2 + e, |d|, |e| <= 2");
	uint64_t n = edge64();
	if (PICK("square", 0, 1)) { if (n >> 32) return; n = n * n + (uint64_t) PICK("e", 0, 2) - 1; }
	const uint64_t r = isqrt<uint64_t>(n);
	typedef unsigned __int128 W;
	ENSURES("r^2 <= n < (r + 1)^2", W(r) * r <= n && n < (W(r) + 1) * (W(r) + 1));
	if (n <= 0xffffffffu) {
		const uint64_t q = isqrt<uint32_t>((uint32_t) n);
		ENSURES("32 bits: r^2 <= n < (r + 1)^2", q * q <= n && n < (q + 1) * (q + 1));
	}
}
CONTRACT(icbrt_uint64_edges) {
	BOUNDED("64-bit icbrt: n = 2^k + d and (2^k + d)^3 + e, |d|, |e| <= 2");
	uint64_t n = edge64();
	if (PICK("cube", 0, 1)) { if (n >= (1 << 21)) return; n = n * n * n + (uint64_t) PICK("e", 0, 2) - 1; }
	const uint64_t r = icbrt<uint64_t>(n);
	typedef unsigned __int128 W;
	ENSURES("r^3 <= n < (r + 1)^3", W(r) * r * r <= n && n < (W(r) + 1) * (W(r) + 1) * (W(r) + 1));
	if (n <= 0xffffffffu) {
		const uint64_t q = icbrt<uint32_t>((uint32_t) n);
		ENSURES("32 bits: r^3 <= n < (r + 1)^3", q * q * q <= n && n < (q + 1) * (q + 1) * (q + 1));
	}
}
// ---- logarithm and power of two: all values
template<typename U> static void ilog2_ok(U x) {
	const U b = ilog2<U>(x);
	ENSURES("bit index", b < sizeof(U) * 8);
	ENSURES("2^b <= x < 2^(b+1)", (U) (x >> b) == 1);
}
CONTRACT(ilog2_uint64) { ilog2_ok<uint64_t>(thv_u64("x", 1, ~uint64_t(0))); NO_ERROR(); }
CONTRACT(ilog2_uint32) { ilog2_ok<uint32_t>(thv_u32("x", 1, 0xffffffffu)); NO_ERROR(); }
CONTRACT(ilog2_uint16) { ilog2_ok<uint16_t>(thv_u16("x", 1, 0xffff)); NO_ERROR(); }
template<typename U> static void pad2_ok(U x) {
	const U p = pad2<U>(x);
	ENSURES("the smallest power of two not smaller than x", p != 0 && (U) (p & (U) (p - 1)) == 0 && p >= x && (p == 1 || (U) (p >> 1) < x));
}
CONTRACT(pad2_uint64) {
	// quick: up to 2^8, from 2^30 to 2^34 and from 2^60 up; thorough: every value
	const unsigned part = (unsigned) PICK("part", 0, TIER(2, 0));
	if (TIER(1, 0)) BOUNDED("quick tier: x in [0, 2^8], [2^30, 2^34], [2^60, 2^63]");
	const uint64_t lo = TIER(part == 0 ? 0 : part == 1 ? 1ull << 30 : 1ull << 60, 0), hi = TIER(part == 0 ? 256 : part == 1 ? 1ull << 34 : 1ull << 63, 1ull << 63);
	pad2_ok<uint64_t>(thv_u64("x", lo, hi));
}
CONTRACT(pad2_uint32) { pad2_ok<uint32_t>(thv_u32("x", 0, 1u << 31)); }
// ---- combinatorics: every argument whose result fits in 64 bits
CONTRACT(factorials) {
	const unsigned n = (unsigned) PICK("n", 0, 20);
	uint64_t f = 1, d = 1;
	for (unsigned i = 2; i <= n; i++) { f *= i; if (i % 2 == n % 2) d *= i; }
	ENSURES("n!", fact<uint64_t>(n) == f);
	ENSURES("n!!", double_fact<uint64_t>(n) == d);
}
CONTRACT(double_factorials) {
	const unsigned n = (unsigned) PICK("n", 0, 33);
	uint64_t d = 1;
	for (unsigned i = n; i > 1; i -= 2) d *= i;
	ENSURES("n!!", double_fact<uint64_t>(n) == d);
}
CONTRACT(binomials) {
	const unsigned n0 = (unsigned) PICK("n0", 0, 7);
	uint64_t row[64] = {1};
	for (unsigned n = 0; n <= 62; n++) {
		for (unsigned j = n; j > 0; j--) row[j] = (j == n ? 0 : row[j]) + row[j - 1];
		if (n % 8 != n0) continue;
		for (unsigned m = 0; m <= n; m++) {
			ENSURES("binomial coefficient", binomial_coeff(n, m) == row[m]);
			if (n == 2 * m) ENSURES("Catalan number", catalan(m) == row[m] / (m + 1));
		}
	}
	NO_ERROR();
}
CONTRACT(binomials_large) {
	BOUNDED("n up to 400 with m or n - m up to 6");
	uint64_t row[8] = {1};
	for (unsigned n = 0; n <= 400; n++) {
		for (unsigned j = n < 6 ? n : 6; j > 0; j--) row[j] = (j == n ? 0 : row[j]) + row[j - 1];
		if (n > 62 && (n < 80 || n % 10 == 0)) for (unsigned m = 0; m <= 6; m++) { ENSURES("binomial coefficient", binomial_coeff(n, m) == row[m]); ENSURES("symmetry", binomial_coeff(n, n - m) == row[m]); }
	}
	NO_ERROR();
}
CONTRACT(binomial_domain) {
	const unsigned n = (unsigned) PICK("n", 0, 8), m = (unsigned) PICK("m", 0, 9);
	if (m <= n) return;
	binomial_coeff(n, m);
	SOME_ERROR();
}
CONTRACT(falling_rising) {
	const unsigned n = (unsigned) PICK("n", 0, 20);
	BOUNDED("factorial powers of order up to 20");
	const real x = REAL("x");
	real f = 1, r = 1;
	for (unsigned i = 0; i < n; i++) { f *= x - i; r *= x + i; }
	ENSURES_EQ("falling factorial", falling_fact<real>(x, n), f);
	ENSURES_EQ("rising factorial", rising_fact<real>(x, n), r);
	const uint64_t u = thv_u64("u", 20, 100);
	uint64_t g = 1, h = 1;
	for (unsigned i = 0; i < n; i++) { g *= u - i; h *= u + i; }
	ENSURES("falling factorial of an integer", falling_fact<uint64_t>(u, n) == g);
	ENSURES("rising factorial of an integer", rising_fact<uint64_t>(u, n) == h);
}
CONTRACT(kronecker) {
	const int i = thv_i32("i", -2147483647 - 1, 2147483647), j = thv_i32("j", -2147483647 - 1, 2147483647);
	ENSURES("delta", kronecker_delta(i, j) == (i == j ? 1 : 0));
}
// ---- integer powers
CONTRACT(int_power) {
	const int n = ANY_EXPONENT();
	BOUNDED(EXPONENTS);
	const real x = REAL("x");
	REQUIRES(n >= 0 || x != 0);
	real p = 1;
	for (int i = 0; i < (n < 0 ? -n : n); i++) p *= x;
	ENSURES_EQ("x^n", pow(x, n), n < 0 ? 1 / p : p);
	if (n >= 0) ENSURES_EQ("ipow", ipow(x, (unsigned) n), p);
	if (n >= 0) ENSURES_EQ("ipow with a neutral element", ipow<real>(x, (unsigned) n, 1.0), p);
}
CONTRACT(int_power_modular) {
	const unsigned n = PICK_OR("n", 0, 17, 31, 32, 33, 64, 100);
	BOUNDED("unsigned integer powers with exponent up to 17, 31-33, 64 and 100");
	const uint64_t x = thv_u64("x", 0, ~uint64_t(0));
	uint64_t p = 1;
	for (unsigned i = 0; i < n; i++) p *= x;
	ENSURES("x^n modulo 2^64", ipow<uint64_t>(x, n) == p);
}
// ---- bits
CONTRACT(bit_rotations) {
	const uint64_t x = thv_u64("x", 0, ~uint64_t(0)); const unsigned i = (unsigned) PICK("i", 0, 63), k = thv_u32("k", 0, 63);
	const uint64_t r = bit_rotate(x, i);
	ENSURES("bit k moves to k + i mod 64", ((r >> ((k + i) % 64)) & 1) == ((x >> k) & 1));
}
CONTRACT(bit_rotations_32) {
	const uint32_t x = thv_u32("x", 0, 0xffffffffu); const unsigned i = (unsigned) PICK("i", 0, 31), k = thv_u32("k", 0, 31);
	const uint32_t r = bit_rotate(x, i);
	ENSURES("bit k moves to k + i mod 32", ((r >> ((k + i) % 32)) & 1) == ((x >> k) & 1));
}
CONTRACT(bit_rotations_8) {
	const uint8_t x = thv_u8("x", 0, 255); const unsigned i = (unsigned) PICK("i", 0, 7), k = thv_u32("k", 0, 7);
	const uint8_t r = bit_rotate(x, i);
	ENSURES("bit k moves to k + i mod 8", ((r >> ((k + i) % 8)) & 1) == ((x >> k) & 1));
}
CONTRACT(wide_product) {
	const uint64_t a = thv_u64("a", 0, ~uint64_t(0)), b = thv_u64("b", 0, ~uint64_t(0));
	uint64_t lo, hi;
	mul_uint128(a, b, lo, hi);
	const unsigned __int128 p = (unsigned __int128) a * b;
	ENSURES("low half", lo == (uint64_t) p);
	ENSURES("high half", hi == (uint64_t) (p >> 64));
	ENSURES("mix_mum", mix_mum(a, b) == (lo ^ hi));
}
CONTRACT(bit_reversal) {
	const unsigned m = (unsigned) PICK("m", 0, 9), extra = (unsigned) PICK("extra", 0, 1);
	BOUNDED("bit reversal of up to 512 elements");
	const unsigned n = (1u << m) + (extra ? (1u << m) : 0);
	vec<real> x = sym_dvec("x", n), y = x;
	swap_bit_reverse(x, m);
	for (unsigned i = 0; i < n; i++) {
		unsigned j = 0;
		for (unsigned k = 0; k < m; k++) if (i & (1u << k)) j |= 1u << (m - 1 - k);
		if (i < (1u << m)) ENSURES_EQ("element with reversed index", x[i], y[j]);
		else ENSURES_EQ("elements over 2^m stay", x[i], y[i]);
	}
	NO_ERROR();
}
CONTRACT(bit_reversal_too_short) {
	const unsigned m = (unsigned) PICK("m", 1, 5);
	vec<real> x = sym_dvec("x", (1u << m) - 1), y = x;
	swap_bit_reverse(x, m);
	SOME_ERROR();
	for (unsigned i = 0; i < x.size(); i++) ENSURES_EQ("unchanged", x[i], y[i]);
}
