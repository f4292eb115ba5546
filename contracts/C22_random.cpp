#include "thvlib.h"
// Pseudorandom generators and sampling.  Samplers and integrals are checked for any generator: DRAWS is a generator
// whose outputs are arbitrary 64-bit numbers.
static uint64_t draw[240];
static unsigned next_draw = 0;
static uint64_t any_draw(uint64_t, std::vector<uint64_t>&) { return draw[next_draw++]; }
#define DRAWS(n) for (unsigned di = 0; di < (n); di++) draw[di] = thv_u64("g", 0, ~uint64_t(0)); next_draw = 0; PRNG g(any_draw, 0);
static real unit(unsigned i) { return (real) (draw[i] % STATISTICS_RAND_PREC) / (real) STATISTICS_RAND_PREC; }
static real between(real a, real b, unsigned i) { return a + (b - a) * unit(i); }
static uint64_t rotl(uint64_t x, unsigned k) { return (x << k) | (x >> (64 - k)); }
#define U64(n) thv_u64(n, 0, ~uint64_t(0))
#define SAME(label, a, b) ENSURES(label, (a) == (b))
static real F(real x) { return thv_fn1("f", x); }
static real G(real x) { return thv_fn1("g", x); }
static real H(real x) { return thv_fn1("h", x); }
// Generators
CONTRACT(xoshiro_algorithm) {
	const uint64_t s0 = U64("s0"), s1 = U64("s1"), s2 = U64("s2"), s3 = U64("s3");
	std::vector<uint64_t> s = {s0, s1, s2, s3};
	const uint64_t r = randgen_xoshiro(U64("x"), s);
	uint64_t t0 = s0, t1 = s1, t2 = s2, t3 = s3;
	const uint64_t q = rotl(t0 + t3, 23) + t0, t = t1 << 17;
	t2 ^= t0; t3 ^= t1; t1 ^= t2; t0 ^= t3; t2 ^= t; t3 = rotl(t3, 45);
	SAME("output", r, q);
	ENSURES("state", s.size() == 4 && s[0] == t0 && s[1] == t1 && s[2] == t2 && s[3] == t3);
	if (s0 | s1 | s2 | s3) ENSURES("the state does not become null", (s[0] | s[1] | s[2] | s[3]) != 0);
	NO_ERROR();
}
static uint64_t splitmix(uint64_t x) {
	uint64_t z = x + 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
CONTRACT(splitmix_algorithm) {
	const uint64_t x = U64("x");
	std::vector<uint64_t> p;
	SAME("output", randgen_splitmix64(x), splitmix(x));
	SAME("wrapper", randgen_splitmix64(x, p), splitmix(x));
}
CONTRACT(wyrand_algorithm) {
	const uint64_t s = U64("s"), p1 = U64("p1"), p2 = U64("p2");
	std::vector<uint64_t> p = {s, p1, p2};
	const uint64_t r = randgen_wyrand(U64("x"), p);
	SAME("output", r, mix_mum((s + p1) ^ p2, s + p1));
	ENSURES("state", p.size() == 3 && p[0] == s + p1 && p[1] == p1 && p[2] == p2);
	NO_ERROR();
}
CONTRACT(middlesquare_algorithm) {
	const uint64_t x = U64("x"), off = U64("offset");
	std::vector<uint64_t> p = {off};
	uint64_t lo, hi;
	mul_uint128(x + off, x + off, lo, hi);
	SAME("output", randgen_middlesquare(x, p), (hi << 32) | (lo >> 32));
	SAME("default offset", randgen_middlesquare(x - 765872292751861ull), randgen_middlesquare(x, uint64_t(0)));
	SAME("state", p[0], off);
	NO_ERROR();
}
CONTRACT(congruential_algorithm) {
	const uint64_t x = U64("x"), a = U64("a"), c = U64("c"), m = thv_u64("m", 1, ~uint64_t(0));
	REQUIRES(a <= m && c <= m);
	std::vector<uint64_t> p = {a, c, m};
	const uint64_t r = randgen_congruential(x, p);
	SAME("output", r, (a * x + c) % m);
	SAME("same function", randgen_congruential(x, a, c, m), r);
	SAME("default parameters", randgen_congruential(x), (48271 * x) % 2147483647ull);
	NO_ERROR();
}
CONTRACT(generator_parameters) {
	BOUNDED("parameter vectors of size 0 to 5");
	const unsigned n = (unsigned) PICK("size", 0, 5), k = (unsigned) PICK("generator", 0, 4);
	std::vector<uint64_t> p(n);
	for (unsigned i = 0; i < n; i++) p[i] = U64("p");
	if (n == (k == 0 ? 4u : k == 1 ? 3u : k == 2 ? 1u : 3u) && k != 4) return;
	if (k == 4) { if (n != 3) return; REQUIRES(p[2] == 0 || p[0] > p[2] || p[1] > p[2]); }
	const uint64_t x = U64("x"), r = k == 0 ? randgen_xoshiro(x, p) : k == 1 ? randgen_wyrand(x, p) : k == 2 ? randgen_middlesquare(x, p) : randgen_congruential(x, p);
	SAME("null", r, 0);
	SOME_ERROR();
}
// The generator object
static uint64_t any_function(uint64_t x, std::vector<uint64_t>& p) {
	const uint64_t r = x * 3 + p[0];
	p[0] = p[0] * 5 + 1;
	return r;
}
CONTRACT(sequence) {
	BOUNDED("sequences of 3 numbers");
	const uint64_t seed = U64("seed"), p = U64("p"), again = U64("again");
	PRNG g(any_function, seed, {p}), h = g;
	std::vector<uint64_t> s = {p};
	const uint64_t y1 = any_function(seed, s), y2 = any_function(y1, s), y3 = any_function(y2, s);
	SAME("seed", g.last(), seed);
	SAME("first", g.next(), y1);
	SAME("second", g(), y2);
	uint64_t z;
	g >> z;
	SAME("third", z, y3);
	SAME("last", g.last(), y3);
	SAME("state", g.get_param()[0], s[0]);
	// the copy goes through the same sequence, independently
	SAME("copy", h.next(), y1);
	g.seed(again);
	g.set_param(0, p);
	s[0] = p;
	SAME("seeded again", g.next(), any_function(again, s));
	g.set_param(std::vector<uint64_t>{again});
	s[0] = again;
	const uint64_t l = g.last();
	SAME("parameters", g.next(), any_function(l, s));
	ENSURES("function", g.get_function() == any_function);
	g.set_function(any_draw);
	draw[0] = p;
	next_draw = 0;
	SAME("new function", g.next(), p);
}
CONTRACT(discard) {
	BOUNDED("0 to 10, 16, 33, 64, 100 numbers");
	const unsigned n = PICK_OR("n", 0, 10, 16, 33, 64, 100);
	const uint64_t seed = U64("seed"), p = U64("p");
	PRNG g(any_function, seed, {p}), h(any_function, seed, {p});
	g.discard(n);
	for (unsigned i = 0; i < n; i++) h.next();
	SAME("same as next()", g.last(), h.last());
	SAME("same state", g.next(), h.next());
}
CONTRACT(seeded_xoshiro) {
	const uint64_t seed = U64("seed");
	PRNG g = PRNG::xoshiro(seed), h(seed);
	const std::vector<uint64_t> s = g.get_param(), t = h.get_param();
	ENSURES("four numbers", s.size() == 4 && t.size() == 4);
	SAME("first", s[0], splitmix(seed ? seed : 1));
	for (unsigned i = 1; i < 4; i++) SAME("splitmix", s[i], splitmix(s[i - 1]));
	for (unsigned i = 0; i < 4; i++) SAME("the default generator", s[i], t[i]);
	ENSURES("the state is not null", s[0] != 0 || s[1] != 0 || s[2] != 0 || s[3] != 0);
	std::vector<uint64_t> c = s;
	SAME("generates with xoshiro256++", g(), randgen_xoshiro(0, c));
	NO_ERROR();
}
CONTRACT(seeded_generators) {
	const uint64_t seed = U64("seed"), s = seed ? seed : 1;
	PRNG a = PRNG::splitmix64(seed), b = PRNG::wyrand(seed), b2 = PRNG::wyrand(seed, 77, 0), c = PRNG::middlesquare(seed, 0), d = PRNG::xoshiro({1, 2, 3, seed});
	SAME("splitmix64", a(), splitmix(s));
	std::vector<uint64_t> p = {s, 2549536629329ull, 136137137};
	SAME("wyrand", b(), randgen_wyrand(0, p));
	std::vector<uint64_t> p0 = {s, 77, splitmix(s)};
	SAME("wyrand", b2(), randgen_wyrand(0, p0));
	SAME("middle-square", c(), randgen_middlesquare(seed ? seed : splitmix(765872292751861ull)));
	std::vector<uint64_t> q = {1, 2, 3, seed};
	SAME("xoshiro", d(), randgen_xoshiro(0, q));
	NO_ERROR();
}
CONTRACT(congruential_range) {
	// any seed, and any later state x in [1, m)
	const uint64_t seed = U64("seed"), m = 2147483647ull, x = thv_u64("x", 1, m - 1);
	PRNG g = PRNG::linear_congruential(seed);
	ENSURES("the first state is in range", g.last() >= 1 && g.last() < m);
	g.seed(x);
	const uint64_t r = g();
	SAME("recurrence", r, (48271 * x) % m);
	ENSURES("the next state is in range", r >= 1 && r < m);
	NO_ERROR();
}
CONTRACT(shuffle_permutes) {
	BOUNDED("1 to 3 elements, 1 to 2 (3) exchanges, all indices");
	const unsigned n = (unsigned) PICK("size", 1, 3), rounds = (unsigned) PICK("rounds", 1, TIER(2, 3));
	std::vector<real> v = sym_stdvec("v", n), w = v;
	for (unsigned i = 0; i < 2 * rounds; i++) draw[i] = (uint64_t) PICK("g", 0, 2) + 3 * n * 7;
	next_draw = 0;
	PRNG g(any_draw, 0);
	shuffle(v, g, rounds);
	// the expected exchanges
	for (unsigned i = 0; i < rounds; i++) {
		const unsigned a = draw[2 * i] % n, b = draw[2 * i + 1] % n;
		const real t = w[a];
		w[a] = w[b];
		w[b] = t;
	}
	ENSURES("numbers used", next_draw == 2 * rounds);
	for (unsigned i = 0; i < n; i++) ENSURES_EQ("elements are exchanged", v[i], w[i]);
	NO_ERROR();
}
CONTRACT(shuffle_default) {
	BOUNDED("1 to 9 elements");
	const unsigned n = (unsigned) PICK("size", 1, 9);
	std::vector<real> v = sym_stdvec("v", n);
	for (unsigned i = 0; i < 200; i++) draw[i] = i;
	next_draw = 0;
	PRNG g(any_draw, 0);
	shuffle(v, g);
	ENSURES("(n - 1)^2 rounds", next_draw == 2 * (n - 1) * (n - 1));
	NO_ERROR();
}
CONTRACT(shuffle_empty) {
	std::vector<real> v;
	PRNG g(1);
	shuffle(v, g, (unsigned) PICK("rounds", 0, 2));
	ENSURES("empty", v.size() == 0);
	SOME_ERROR();
}
// Sampling
CONTRACT(uniform) {
	DRAWS(3)
	const real a = REAL("a"), b = REAL("b");
	const real x = rand_uniform(a, b, g);
	ENSURES_EQ("value", x, between(a, b, 0));
	ENSURES_EQ("wrapper", rand_uniform(std::vector<real>{a, b}, g), between(a, b, 1));
	REQUIRES(a < b);
	ENSURES("not below the lower extreme", x >= a);
	ENSURES("below the upper extreme", x < b);
	ENSURES("numbers used", next_draw == 2);
	NO_ERROR();
}
CONTRACT(uniform_precision) {
	DRAWS(1)
	const uint64_t prec = thv_u64("prec", 1, (uint64_t) 1 << 52);
	const real x = rand_uniform(0, 1, g, prec);
	ENSURES_EQ("value", x * (real) prec, (real) (draw[0] % prec));
	ENSURES("in [0, 1)", x >= 0 && x < 1);
}
CONTRACT(coin_and_dice) {
	DRAWS(5)
	const unsigned faces = thv_u32("faces", 1, 0xffffffffu);
	const real c = rand_cointoss(g), d = rand_diceroll(faces, g);
	ENSURES("coin", c == 1 || c == -1);
	ENSURES_EQ("coin", c, draw[0] % 2 ? -1 : 1);
	ENSURES("dice", d >= 1 && d <= (real) faces);
	ENSURES_EQ("dice", d, (real) (draw[1] % faces + 1));
	ENSURES_EQ("coin wrapper", rand_cointoss(std::vector<real>{}, g), draw[2] % 2 ? -1 : 1);
	const unsigned k = (unsigned) PICK("faces of the wrapper", 1, 20);
	ENSURES_EQ("dice wrapper", rand_diceroll(std::vector<real>{(real) k}, g), (real) (draw[3] % k + 1));
	NO_ERROR();
}
CONTRACT(quantiles) {
	const real p = REAL("p"), q = REAL("q");
	const int k = (int) PICK("distribution", 0, 4), wrap = (int) PICK("wrapper", 0, 1);
	DRAWS(2)
	const real u = unit(0);
	REQUIRES(p > 0.01 && q > 0.01);
	if (k == 0) ENSURES_EQ("exponential", wrap ? rand_exponential(std::vector<real>{p}, g) : rand_exponential(p, g), -thv_ln(1 - u) / p);
	if (k == 1) ENSURES_EQ("Rayleigh", wrap ? rand_rayleigh(std::vector<real>{p}, g) : rand_rayleigh(p, g), p * thv_sqrt(-2 * thv_ln(1 - u)));
	if (k == 2) { REQUIRES(thv_cos(PI * (u - 0.5)) > 1E-3); ENSURES_EQ("Cauchy", wrap ? rand_cauchy(std::vector<real>{p, q}, g) : rand_cauchy(p, q, g), p + q * tan(PI * (u - 0.5))); }
	if (k == 3) ENSURES_EQ("Pareto", wrap ? rand_pareto(std::vector<real>{p, q}, g) : rand_pareto(p, q, g), p * thv_exp(-thv_ln(1 - u) / q));
	if (k == 4) ENSURES_EQ("Laplace", wrap ? rand_laplace(std::vector<real>{p, q}, g) : rand_laplace(p, q, g), p - q * (draw[1] % 2 ? -1 : 1) * thv_ln(1 - u));
	ENSURES("numbers used", next_draw == (k == 4 ? 2u : 1u));
	NO_ERROR();
}
