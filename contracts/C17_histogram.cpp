#include "thvlib.h"
typedef std::vector<real> SV;
static unsigned total(const histogram& h) {
	const std::vector<unsigned> b = h.bins();
	unsigned s = 0;
	for (unsigned i = 0; i < b.size(); i++) s += b[i];
	return s;
}
// the bin of x in [lo, hi] by definition: the last i with lo + i (hi - lo) / k <= x
static unsigned bin(real x, real lo, real hi, unsigned k) {
	unsigned r = 0;
	for (unsigned i = 1; i < k; i++) if (x >= lo + i * (hi - lo) / k) r = i;
	return r;
}
CONTRACT(empty) {
	const unsigned k = PICK_OR("bins", 1, 8, 16, 33, 100);
	const real lo = REAL("lo"), hi = REAL("hi");
	REQUIRES(lo < hi);
	histogram h(k, lo, hi);
	ENSURES("no values", h.number() == 0 && total(h) == 0 && h.bins().size() == k);
	for (unsigned i = 0; i < k; i++) ENSURES("empty bin", h[i] == 0);
	ENSURES("tss", h.tss() == 0);
	errno = 0; ENSURES_NAN("variance", stats::variance(h)); SOME_ERROR();
}
CONTRACT(bin_of_value) {
	const unsigned k = (unsigned) PICK("bins", 1, 8);
	BOUNDED("histograms of up to 8 bins");
	const real lo = REAL("lo"), hi = REAL("hi"), x = REAL("x");
	REQUIRES(lo < hi && lo <= x && x <= hi);
	const histogram h(k, lo, hi);
	ENSURES("bin", h.index(x) == bin(x, lo, hi, k));
}
// every value in the range is counted once, in its bin; the moments are those of the counted values
static void inserts(unsigned k, unsigned n) {
	const real lo = REAL("lo"), hi = REAL("hi");
	REQUIRES(lo < hi);
	histogram h(k, lo, hi);
	std::vector<unsigned> c(k, 0);
	SV in;
	for (unsigned i = 0; i < n; i++) {
		const real x = REAL("x");
		h.insert(x);
		if (x >= lo && x <= hi) { in.push_back(x); c[bin(x, lo, hi, k)]++; }
		else ENSURES("outside of the range", h(x) == 0);
	}
	ENSURES("counted values", h.number() == in.size() && total(h) == in.size());
	for (unsigned i = 0; i < k; i++) ENSURES("count of the bin", h[i] == c[i]);
	if (in.size() == 0) return;
	real M = in[0], m = in[0], s = 0, t = 0;
	for (unsigned i = 0; i < in.size(); i++) { s += in[i]; if (in[i] > M) M = in[i]; if (in[i] < m) m = in[i]; }
	s /= in.size();
	for (unsigned i = 0; i < in.size(); i++) t += (in[i] - s) * (in[i] - s);
	ENSURES_EQ("maximum", h.max(), M); ENSURES_EQ("minimum", h.min(), m);
	ENSURES_EQ("max of a histogram", max(h), M); ENSURES_EQ("min of a histogram", min(h), m);
	ENSURES_EQ("mean", h.mean(), s); ENSURES_EQ("sum of squares", h.tss(), t);
	ENSURES_EQ("stats::mean", stats::mean(h), s); ENSURES_EQ("stats::tss", stats::tss(h), t);
	if (in.size() > 1) {
		ENSURES_EQ("variance", stats::variance(h), t / (in.size() - 1));
		ENSURES_EQ("stdev", stats::stdev(h), thv_sqrt(t / (in.size() - 1)));
	}
	ENSURES("operator()", h(in[0]) == c[bin(in[0], lo, hi, k)]);
}
CONTRACT(insert_1) { BOUNDED("1 value in up to 4 bins"); inserts((unsigned) PICK("bins", 1, 4), 1); }
CONTRACT(insert_2) { BOUNDED("2 values in up to 3 bins"); inserts((unsigned) PICK("bins", 1, 3), 2); }
CONTRACT(insert_3) { BOUNDED("3 values in 1 or 2 bins"); inserts((unsigned) PICK("bins", 1, TIER(1, 2)), 3); }
// many values, all given but one
CONTRACT(insert_many) {
	BOUNDED("10, 33, 100 values in 1 to 6, 16, 33 bins, " PROBES);
	static const unsigned N[] = { 10, 33, 100 }; const unsigned n = N[PICK("n", 0, 2)], k = PICK_OR("bins", 1, 6, 16, 33), p = PROBE_POS(n), where = (unsigned) PICK("where", 0, 5);
	const real lo = -40.25, hi = 60, x = REAL("x");
	REQUIRES(where == 0 ? x < lo : where == 1 ? x > hi : where == 2 ? x >= lo && x < lo + 0.125 : where == 3 ? x > hi - 0.125 && x < hi : where == 4 ? x == hi : x > 1.0625 && x < 1.125);
	const SV X = probe_data<SV>("other", n, 4, n); histogram h(k, lo, hi); std::vector<unsigned> c(k, 0); SV in;
	for (unsigned i = 0; i < n; i++) { const real y = i == p ? x : X[i]; h.insert(y); if (y >= lo && y <= hi) { in.push_back(y); c[bin(y, lo, hi, k)]++; } }
	ENSURES("counted values", h.number() == in.size() && total(h) == in.size());
	for (unsigned i = 0; i < k; i++) ENSURES("count of the bin", h[i] == c[i]);
	real M = in[0], m = in[0], s = 0, t = 0; for (unsigned i = 0; i < in.size(); i++) { s += in[i]; if (in[i] > M) M = in[i]; if (in[i] < m) m = in[i]; } s /= in.size();
	for (unsigned i = 0; i < in.size(); i++) t += (in[i] - s) * (in[i] - s);
	ENSURES_EQ("maximum", h.max(), M); ENSURES_EQ("minimum", h.min(), m); ENSURES_EQ("mean", h.mean(), s); ENSURES_EQ("sum of squares", h.tss(), t);
	ENSURES_EQ("variance", stats::variance(h) * (in.size() - 1), t);
}
CONTRACT(from_data_many) {
	BOUNDED("10, 33, 100 values in up to 6, 16, 33 bins");
	static const unsigned N[] = { 10, 33, 100 }; const unsigned n = N[PICK("n", 0, 2)], k = PICK_OR("bins", 0, 6, 16, 33), pat = (unsigned) PICK("pattern", 0, 4); REQUIRES(n < 100 || k == 0 || k == 3 || k == 16); SV X = probe_data<SV>("x", n, pat, n);
	const unsigned p = PROBE_POS(n); if (PICK("band", 0, 1)) { X[p] = REAL("x"); REQUIRES(X[p] > 1E3); REQUIRES(k == 1); }
	unsigned nb = k; if (k == 0) while ((nb + 1) * (nb + 1) <= n) nb++;
	real M = X[p], m = X[p], s = 0, t = 0; for (unsigned i = 0; i < n; i++) { s += X[i]; if (X[i] > M) M = X[i]; if (X[i] < m) m = X[i]; } s /= n;
	for (unsigned i = 0; i < n; i++) t += (X[i] - s) * (X[i] - s);
	errno = 0; const histogram h(X, k); NO_ERROR();
	ENSURES("counted values", h.number() == n && total(h) == n && h.bins().size() == nb);
	ENSURES_EQ("maximum", h.max(), M); ENSURES_EQ("minimum", h.min(), m); ENSURES_EQ("mean", h.mean(), s); ENSURES_EQ("sum of squares", h.tss(), t);
	if (m < M && pat != 3 && k != 0) for (unsigned b = 0; b < nb; b++) { unsigned c = 0; for (unsigned i = 0; i < n; i++) if (bin(X[i], m, M, nb) == b) c++; ENSURES("count of the bin", h[b] == c); }
}
CONTRACT(from_data) {
	const unsigned n = (unsigned) PICK("n", 1, 3), k = (unsigned) PICK("bins", 0, 2), nb = k ? k : 1;
	BOUNDED("histograms of up to 3 values in up to 2 bins");
	SV X = sym_stdvec("x", n);
	real M = X[0], m = X[0], s = 0, t = 0;
	for (unsigned i = 0; i < n; i++) { s += X[i]; if (X[i] > M) M = X[i]; if (X[i] < m) m = X[i]; }
	s /= n;
	for (unsigned i = 0; i < n; i++) t += (X[i] - s) * (X[i] - s);
	errno = 0;
	const histogram h(X, k);
	NO_ERROR();
	ENSURES("counted values", h.number() == n && total(h) == n);
	ENSURES("bins", h.bins().size() == nb);
	ENSURES_EQ("maximum", h.max(), M); ENSURES_EQ("minimum", h.min(), m);
	ENSURES_EQ("mean", h.mean(), s); ENSURES_EQ("sum of squares", h.tss(), t);
	if (m < M) for (unsigned b = 0; b < nb; b++) {
		unsigned c = 0;
		for (unsigned i = 0; i < n; i++) if (bin(X[i], m, M, nb) == b) c++;
		ENSURES("count of the bin", h[b] == c);
	}
}
CONTRACT(default_bins) {
	const unsigned n = PICK_OR("n", 1, 30, 35, 36, 63, 64, 65, 99, 100, 101, 256);
	BOUNDED("1 to 30, 35, 36, 63-65, 99-101, 256 values");
	SV X;
	for (unsigned i = 0; i < n; i++) X.push_back(i);
	unsigned r = 0;
	while ((r + 1) * (r + 1) <= n) r++;
	const histogram h(X);
	ENSURES("root of the number of values", h.bins().size() == r);
	ENSURES("counted values", total(h) == n);
}
CONTRACT(empty_data) {
	SV X;
	errno = 0;
	histogram h(X, 3);
	SOME_ERROR();
	ENSURES("no values", h.number() == 0 && total(h) == 0);
}
// in machine arithmetic: any double, NaN and infinities included, is counted at most once and never out of bounds
static const real L[] = { 0, -1, 0.1, -1E-3 }, H[] = { 1, 1, 0.7, 1E-3 };
static const unsigned K[] = { 1, 10, 3, 7 };
static void insert_ieee(int r) {
	IEEE();
	const unsigned k = K[PICK("bins", 0, TIER(1, 3))];
	BOUNDED("4 ranges and 2 (4) numbers of bins, every double");
	histogram h(k, L[r], H[r]);
	const real x = ANYDOUBLE("x");
	h.insert(x);
	const bool in = x >= L[r] && x <= H[r];
	ENSURES("counted once if in the range", h.number() == (in ? 1 : 0));
	ENSURES("value", h(x) == (in ? 1 : 0));
}
CONTRACT(insert_ieee_0) { insert_ieee(0); }
CONTRACT(insert_ieee_1) { insert_ieee(1); }
CONTRACT(insert_ieee_2) { insert_ieee(2); }
CONTRACT(insert_ieee_3) { insert_ieee(3); }
CONTRACT(index_ieee) {
	IEEE();
	const int r = (int) PICK("range", 0, 3);
	const unsigned k = K[PICK("bins", 0, TIER(1, 3))];
	BOUNDED("4 ranges and 2 (4) numbers of bins, every double");
	const histogram h(k, L[r], H[r]);
	const real x = ANYDOUBLE("x");
	REQUIRES(x >= L[r] && x <= H[r]);
	ENSURES("index in range", h.index(x) < k);
}
