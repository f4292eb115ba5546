// Contract language.  A contract names real functions of /repo/src, constrains their inputs (REQUIRES), calls
// them, and states what must hold afterwards (ENSURES...).  The same text is (1) compiled to LLVM IR and
// discharged by the verifier for all inputs, and (2) compiled natively to replay counterexamples.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cerrno>
extern "C" {
double thv_real(const char*);                    // any finite value
double thv_double(const char*);                  // any double, including NaN and infinities
uint64_t thv_u64(const char*, uint64_t lo, uint64_t hi);
uint32_t thv_u32(const char*, uint32_t lo, uint32_t hi);
uint16_t thv_u16(const char*, uint16_t lo, uint16_t hi);
uint8_t thv_u8(const char*, uint8_t lo, uint8_t hi);
int64_t thv_i64(const char*, int64_t lo, int64_t hi);
int32_t thv_i32(const char*, int32_t lo, int32_t hi);
int64_t thv_pick(const char*, int64_t lo, int64_t hi);   // enumerated case split
uint64_t thv_size(const char*, uint64_t lo);              // a size without a bound
double thv_elem(const char*, uint64_t);                  // the element of a dataset at an index
double thv_elem2(const char*, uint64_t, uint64_t);
void thv_spec(const char*, void*, void* measure); // specification of a recursive function
void thv_assume(int);
void thv_ensure(const char*, int);
void thv_ensure_eq(const char*, double, double);
void thv_ensure_near(const char*, double, double, double);
int thv_isnan(double);
int thv_isinf(double);
int thv_isfinite(double);
double thv_fn1(const char*, double);             // uninterpreted functions
double thv_fn2(const char*, double, double);
double thv_fn3(const char*, double, double, double);
uint64_t thv_fnu(const char*, uint64_t);
void thv_option(const char*, int);
void thv_bounded(const char*);                   // label: this contract only covers the stated bound
double thv_sqrt(double);
double thv_sin(double);
double thv_cos(double);
double thv_exp(double);
double thv_ln(double);
double thv_log2(double);
double thv_atan(double);
double thv_cbrt(double);
}
#define CONTRACT(name) extern "C" __attribute__((used)) void thvc_##name()
#define REQUIRES(c) thv_assume((c) ? 1 : 0)
#define ENSURES(label, c) thv_ensure(label, (c) ? 1 : 0)
#define ENSURES_EQ(label, a, b) thv_ensure_eq(label, (a), (b))
#define ENSURES_NEAR(label, a, b, tol) thv_ensure_near(label, (a), (b), (tol))
#define ENSURES_NAN(label, a) thv_ensure(label, thv_isnan(a))
#define REAL(n) thv_real(n)
#define ANYDOUBLE(n) thv_double(n)
#define PICK(n, lo, hi) thv_pick(n, lo, hi)
#define IEEE() thv_option("fp", 1)
#define UNBOUNDED() thv_option("unbounded", 1)
#define NODIV0() thv_option("nodiv0", 1)
#define NOLEAKCHECK() thv_option("noleak", 1)
#define BOUNDED(what) thv_bounded(what)
#ifdef THV_THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif
#define INLINE(f) thv_option("inline:" f, 1)
#define ABSTRACT2(f) thv_option("abstract2:" f, 1)
#define ABSTRACT1(f) thv_option("abstract1:" f, 1)
