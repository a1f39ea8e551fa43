// Interface between a harness and the checker.  Under the symbolic executor these functions
// introduce symbolic values and proof obligations; natively (vf_native.cpp) they read a
// counterexample and evaluate the same obligations on the compiled code.
#pragma once
#include "stub_log.h"
#include <cmath>
#include <limits>
extern "C" {
double vf_real(const char *name);                  // any finite real
double vf_any(const char *name);                   // finite, nan, +inf or -inf
int vf_int(const char *name, int lo, int hi);      // symbolic integer
int vf_pick(const char *name, int lo, int hi);     // integer, explored value by value
bool vf_bool(const char *name);
void vf_assume(bool c);
void vf_assert(bool c, const char *label);
void vf_eq(double a, double b, const char *label);  // a == b (nan == nan)
void vf_le(double a, double b, const char *label);  // a <= b
void vf_reach(const char *label);                   // must be reached by at least one feasible path
int vf_case();                                      // index of the job
int vf_tier();                                      // 0 quick, 1 thorough
double vf_sleep_us(const char *name, int max);      // lets 0..max us pass, returned in ms; from then on nothing else moves the clock
double vf_time_ms();                                // clock elapsed so far
}
inline double vf_pos(const char *n) { double x = vf_real(n); vf_assume(x > 0); return x; }
inline double vf_nonneg(const char *n) { double x = vf_real(n); vf_assume(x >= 0); return x; }
inline double vf_range(const char *n, double lo, double hi) { double x = vf_real(n); vf_assume(x >= lo); vf_assume(x <= hi); return x; }
template <typename M> inline void vf_fill(M &m, const char *n) {
  for (long j = 0; j < (long)m.cols(); ++j) for (long i = 0; i < (long)m.rows(); ++i) m(i, j) = vf_real(n);
}
template <typename A, typename B> inline void vf_eqm(const A &a, const B &b, const char *label) {
  vf_assert(a.rows() == b.rows() && a.cols() == b.cols(), label);
  for (long j = 0; j < (long)a.cols(); ++j) for (long i = 0; i < (long)a.rows(); ++i) vf_eq(a(i, j), b(i, j), label);
}
