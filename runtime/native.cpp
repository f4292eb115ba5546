// Native runtime of the contract language: replays one input vector, or searches random inputs.
#include "thv.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

struct Entry { const char* name; void (*fn)(); };
extern Entry thv_table[];
struct AssumeFail {};

static bool replaying = false, exact = false;
static int counter = 0, failed = 0, ensured = 0;
static std::map<std::string, std::string> given;
static std::map<std::string, std::vector<std::pair<std::vector<double>, double>>> tabs;
static std::vector<double> hints;
static std::vector<std::string> trace;
static std::string firstfail;
static uint64_t rs;
static int style;

static uint64_t rnd() { rs += 0x9E3779B97F4A7C15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static std::string key(const char* n) { char b[256]; snprintf(b, sizeof b, "%s#%d", n, counter++); return b; }
static bool tracing = false;
static void add(const char* b) { trace.push_back(b); if (tracing) { printf("INPUT %s\n", b); fflush(stdout); } }
static void note(const std::string& k, double v) { char b[400]; snprintf(b, sizeof b, "%s %a (%.17g)", k.c_str(), v, v); add(b); }
static void notei(const std::string& k, long long v) { char b[400]; snprintf(b, sizeof b, "%s %lld", k.c_str(), v); add(b); }

static double gen_real() {
	static const double pool[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3, 4, -3, 0.25, 10, 1.5, 100, -0.25, 7};
	if (exact) {
		switch (rnd() % 5) {
			case 0: { uint64_t b = rnd(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.0; }
			case 1: return (double) (int64_t) (rnd() % 2001) - 1000;
			case 2: return ((double) (int64_t) (rnd() % 2001) - 1000) / 4;
			case 3: return (u01() - 0.5) * 2000;
		}
		if (hints.size()) return hints[rnd() % hints.size()] + (double) ((int) (rnd() % 3) - 1);
	}
	uint64_t z = rnd() % 100;
	if (hints.size() && z < 12) { double h = hints[rnd() % hints.size()]; uint64_t q = rnd() % 6; return q < 3 ? h : q == 3 ? h + 1 : q == 4 ? h - 1 : -h; }
	switch (style % 4) {
		case 0: return (double) (int) (rnd() % 9) - 4;
		case 1: return z < 50 ? pool[rnd() % 16] : (u01() - 0.5) * 8;
		case 2: return (u01() - 0.5) * 8;
		default: return z < 30 ? pool[rnd() % 16] : z < 60 ? (double) (int) (rnd() % 9) - 4 : (u01() - 0.5) * 40;
	}
}

extern "C" double thv_real(const char* n) {
	std::string k = key(n);
	double v;
	if (replaying) { auto it = given.find(k); v = it == given.end() ? 0.0 : strtod(it->second.c_str(), 0); }
	else v = gen_real();
	note(k, v);
	return v;
}
extern "C" double thv_double(const char* n) {
	std::string k = key(n);
	double v;
	if (replaying) { auto it = given.find(k); v = it == given.end() ? 0.0 : strtod(it->second.c_str(), 0); }
	else { uint64_t q = rnd() % 12; v = q == 0 ? NAN : q == 1 ? INFINITY : q == 2 ? -INFINITY : gen_real(); }
	note(k, v);
	return v;
}
static uint64_t gen_int(uint64_t span, int w) { // value in [0, span]
	uint64_t z = rnd() % 10, r;
	if (span == ~0ull) r = z < 3 ? rnd() : z < 5 ? rnd() >> (rnd() % 64) : z < 7 ? (1ull << (rnd() % 64)) + (rnd() % 3) - 1 : z < 8 ? ~0ull - rnd() % 4 : rnd() % 20;
	else {
		if (z < 3) r = rnd() % (span + 1);
		else if (z < 5) r = (rnd() >> (rnd() % 64)) % (span + 1);
		else if (z < 7) r = ((1ull << (rnd() % 64)) + (rnd() % 3) - 1) % (span + 1);
		else if (z < 8) r = span - (rnd() % 4) % (span + 1);
		else r = (rnd() % 20) % (span + 1);
	}
	if (hints.size() && rnd() % 6 == 0) { double h = hints[rnd() % hints.size()]; if (h >= 0 && h < 1e18 && (uint64_t) h <= span) r = (uint64_t) h; }
	return r;
}
static uint64_t get_int(const char* n, uint64_t lo, uint64_t hi, int w) {
	std::string k = key(n);
	uint64_t v;
	if (replaying) { auto it = given.find(k); v = it == given.end() ? lo : (uint64_t) strtoull(it->second.c_str(), 0, 0); if (it != given.end() && it->second[0] == '-') v = (uint64_t) strtoll(it->second.c_str(), 0, 0); }
	else v = lo + gen_int(hi - lo, w);
	notei(k, (long long) v);
	return v;
}
extern "C" uint64_t thv_u64(const char* n, uint64_t lo, uint64_t hi) { return get_int(n, lo, hi, 64); }
extern "C" uint32_t thv_u32(const char* n, uint32_t lo, uint32_t hi) { return get_int(n, lo, hi, 32); }
extern "C" uint16_t thv_u16(const char* n, uint16_t lo, uint16_t hi) { return get_int(n, lo, hi, 16); }
extern "C" uint8_t thv_u8(const char* n, uint8_t lo, uint8_t hi) { return get_int(n, lo, hi, 8); }
extern "C" int64_t thv_i64(const char* n, int64_t lo, int64_t hi) { return get_int(n, lo, hi, 64); }
extern "C" int32_t thv_i32(const char* n, int32_t lo, int32_t hi) { return (int32_t) get_int(n, (int64_t) lo, (int64_t) hi, 32); }
static uint64_t ufseed;
static uint64_t hs(const char* n, uint64_t salt);
extern "C" uint64_t thv_size(const char* n, uint64_t lo) {
	std::string k = key(n);
	uint64_t v;
	if (replaying) { auto it = given.find(k); v = it == given.end() ? lo : (uint64_t) strtoull(it->second.c_str(), 0, 0); if (v > 20000) throw AssumeFail(); }
	else {
		uint64_t z = rnd() % 10;
		v = z < 5 ? lo + rnd() % 12 : z < 8 ? rnd() % 160 : rnd() % 1200;
		if (hints.size() && rnd() % 3 == 0) { double h = hints[rnd() % hints.size()]; if (h >= 0 && h < 5000) v = (uint64_t) h + rnd() % 4; }
		if (v < lo) v = lo;
	}
	notei(k, (long long) v);
	return v;
}
extern "C" double thv_elem(const char* n, uint64_t i) { return (double) ((int64_t) (hs(n, i * 0x9E3779B97F4A7C15ull + ufseed) % 2049) - 1024) / 256; }
extern "C" double thv_elem2(const char* n, uint64_t i, uint64_t j) { return (double) ((int64_t) (hs(n, i * 0x9E3779B97F4A7C15ull + j * 0xD1B54A32D192ED03ull + ufseed) % 2049) - 1024) / 256; }
extern "C" void thv_spec(const char*, void*, void*) {}
extern "C" int64_t thv_pick(const char* n, int64_t lo, int64_t hi) {
	std::string k = key(n);
	int64_t v;
	if (replaying) { auto it = given.find(k); v = it == given.end() ? lo : strtoll(it->second.c_str(), 0, 0); }
	else v = lo + (int64_t) (rnd() % (uint64_t) (hi - lo + 1));
	notei(k, v);
	return v;
}
extern "C" void thv_assume(int c) { if (!c) throw AssumeFail(); }
static void bad(const char* l, const char* how, double a, double b) {
	failed++;
	if (firstfail.empty()) { char t[500]; snprintf(t, sizeof t, "%s: %s (%.17g vs %.17g)", l, how, a, b); firstfail = t; }
}
extern "C" void thv_ensure(const char* l, int c) { ensured++; if (!c) bad(l, "condition is false", 0, 0); }
static double scale_in() { return 1; }
extern "C" void thv_ensure_eq(const char* l, double a, double b) {
	ensured++;
	if (std::isnan(a) && std::isnan(b)) return;
	if (a == b) return;
	if (exact) { bad(l, "values differ", a, b); return; }
	if (std::isinf(a) || std::isinf(b) || std::isnan(a) || std::isnan(b)) {
		// overflow/rounding artefacts are not counted: only report when one side is an ordinary value
		double o = std::isfinite(a) ? a : b;
		if (std::isfinite(o) && std::fabs(o) < 1e100) bad(l, "values differ", a, b);
		else if (std::isnan(a) != std::isnan(b)) bad(l, "values differ", a, b);
		return;
	}
	double m = std::fmax(scale_in(), std::fmax(std::fabs(a), std::fabs(b)));
	if (std::fabs(a - b) > 1e-5 * m) bad(l, "values differ", a, b);
}
extern "C" void thv_ensure_near(const char* l, double a, double b, double tol) {
	ensured++;
	if (std::isnan(a) && std::isnan(b)) return;
	if (a == b) return;
	if (!(std::fabs(a - b) <= tol * 1.001 + 1e-14 * std::fmax(std::fabs(a), std::fabs(b)))) bad(l, "values too far apart", a, b);
}
extern "C" int thv_isnan(double x) { return std::isnan(x); }
extern "C" int thv_isinf(double x) { return std::isinf(x); }
extern "C" int thv_isfinite(double x) { return std::isfinite(x); }
static uint64_t hs(const char* n, uint64_t salt) { uint64_t h = 1469598103934665603ull ^ salt; for (; *n; n++) { h ^= (unsigned char) *n; h *= 1099511628211ull; } uint64_t z = h; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static double cf(const char* n, int i) { return (double) ((int) (hs(n, ufseed * 131 + i) % 17) - 8) / 4; }
static bool tab(const std::string& n, std::vector<double> a, double& r) {
	auto it = tabs.find(n);
	if (it == tabs.end()) return false;
	for (auto& e : it->second) {
		bool ok = e.first.size() == a.size();
		for (size_t i = 0; ok && i < a.size(); i++) ok = std::fabs(e.first[i] - a[i]) <= 1e-9 * std::fmax(1.0, std::fabs(a[i]));
		if (ok) { r = e.second; return true; }
	}
	return false;
}
extern "C" double thv_fn1(const char* n, double x) { double r; if (tab(std::string("uf_") + n, {x}, r)) return r; return cf(n, 0) + x * (cf(n, 1) + x * (cf(n, 2) + x * cf(n, 3) / 8)) + cf(n, 4) * std::sin(x * cf(n, 5)); }
extern "C" double thv_fn2(const char* n, double x, double y) { double r; if (tab(std::string("uf2_") + n, {x, y}, r)) return r; return cf(n, 0) + cf(n, 1) * x + cf(n, 2) * y + cf(n, 3) * x * y + cf(n, 4) * std::sin(x + cf(n, 5) * y); }
extern "C" double thv_fn3(const char* n, double x, double y, double z) { double r; if (tab(std::string("uf3_") + n, {x, y, z}, r)) return r; return cf(n, 0) + cf(n, 1) * x + cf(n, 2) * y + cf(n, 6) * z + cf(n, 3) * x * y * z + cf(n, 4) * std::sin(x + cf(n, 5) * y + z); }
extern "C" uint64_t thv_fnu(const char* n, uint64_t x) { return hs(n, x * 0x9E3779B97F4A7C15ull + ufseed); }
extern "C" void thv_option(const char* n, int v) { if (!strcmp(n, "fp")) exact = v; }
extern "C" void thv_bounded(const char*) {}
extern "C" double thv_sqrt(double x) { return std::sqrt(x); }
extern "C" double thv_sin(double x) { return std::sin(x); }
extern "C" double thv_cos(double x) { return std::cos(x); }
extern "C" double thv_exp(double x) { return std::exp(x); }
extern "C" double thv_ln(double x) { return std::log(x); }
extern "C" double thv_log2(double x) { return std::log2(x); }
extern "C" double thv_atan(double x) { return std::atan(x); }
extern "C" double thv_cbrt(double x) { return std::cbrt(x); }

static int once(void (*fn)()) { // 0 ok, 1 ensures failed, 3 precondition not met
	counter = failed = ensured = 0; exact = false; trace.clear(); firstfail.clear(); errno = 0;
	try { fn(); } catch (AssumeFail&) { return failed ? 1 : 3; } catch (...) { firstfail = "an exception escapes"; return 1; }
	return failed ? 1 : 0;
}
static void dump() { for (auto& t : trace) printf("INPUT %s\n", t.c_str()); printf("FAIL %s\n", firstfail.c_str()); fflush(stdout); }

int main(int argc, char** argv) {
	if (argc < 3) return 2;
	void (*fn)() = 0;
	for (Entry* e = thv_table; e->name; e++) if (!strcmp(e->name, argv[2])) fn = e->fn;
	if (!fn) { fprintf(stderr, "no contract %s\n", argv[2]); return 2; }
	if (!strcmp(argv[1], "replay")) {
		replaying = true;
		FILE* f = fopen(argv[3], "r");
		char a[300], b[300];
		while (f && fscanf(f, "%299s", a) == 1) {
			if (!strcmp(a, "seed")) { unsigned long long s; if (fscanf(f, "%llu", &s) == 1) ufseed = s; continue; }
			if (!strcmp(a, "uf")) { int n; if (fscanf(f, "%299s %d", b, &n) != 2) break; std::vector<double> v(n); double r; for (int i = 0; i < n; i++) if (fscanf(f, "%lf", &v[i]) != 1) break; if (fscanf(f, "%lf", &r) != 1) break; tabs[b].push_back({v, r}); continue; }
			if (fscanf(f, "%299s", b) != 1) break;
			given[a] = b;
		}
		int r = once(fn);
		if (r == 1) dump();
		return r;
	}
	// fuzz <contract> <seconds> <seed> <progressfile> [hints...]
	double secs = atof(argv[3]);
	uint64_t seed = strtoull(argv[4], 0, 0);
	for (int i = 6; i < argc; i++) hints.push_back(atof(argv[i]));
	int fd = open(argv[5], O_RDWR | O_CREAT, 0600);
	if (ftruncate(fd, 16)) return 2;
	volatile uint64_t* prog = (uint64_t*) mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	uint64_t t = prog[0];
	if (!strcmp(argv[1], "trace")) {     // the inputs of the run that crashed; the search goes on after it
		tracing = true;
		rs = seed * 0x9E3779B97F4A7C15ull + t * 0xD1B54A32D192ED03ull;
		ufseed = t; style = (int) (t % 4);
		printf("SEED %llu\n", (unsigned long long) ufseed); fflush(stdout);
		prog[0] = t + 1;
		alarm(20);
		once(fn);
		return 0;
	}
	struct timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	for (uint64_t k = t;; k++) {
		prog[0] = k;
		rs = seed * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull;
		ufseed = k; style = (int) (k % 4);
		alarm(20);
		int r = once(fn);
		alarm(0);
		prog[1] += r != 3;
		if (r == 1) { prog[0] = k + 1; dump(); printf("SEED %llu\n", (unsigned long long) ufseed); return 1; }
		if (k % 16 == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) break; }
	}
	return 0;
}
