// datasets of any size: the loops of the code under contract are summarised, not unrolled
#pragma once
#include "thvlib.h"
struct G {
	const char* name; size_t n;
	size_t size() const { return n; }
	real operator[](size_t i) const { ENSURES("index below the size", i < n); return thv_elem(name, i); }
	struct const_iterator {
		const char* name; size_t i, n;
		real operator*() const { ENSURES("position below the size", i < n); return thv_elem(name, i); }
		const_iterator& operator++() { i++; return *this; }
		bool operator!=(const const_iterator& o) const { return i != o.i; }
		bool operator==(const const_iterator& o) const { return i == o.i; }
	};
	const_iterator begin() const { const_iterator k = {name, 0, n}; return k; }
	const_iterator end() const { const_iterator k = {name, n, n}; return k; }
};
static G any(const char* name, size_t n) { G g = {name, n}; return g; }
// specification of the pairwise sum, proved in C14 (unbounded_pairwise)
static real spec_sum(const G& X, size_t b, size_t e, size_t base) {
	(void) base;
	if (e == 0) e = X.n;
	real s = 0;
	for (size_t i = b; i < e; i++) s += X[i];
	return s;
}
#define SUM_BY_CONTRACT() thv_spec("sum_pairwise", (void*) spec_sum, 0)
