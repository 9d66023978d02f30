// Harness interface. Under the symbolic executor every ve_* function is an
// intrinsic; natively (replay) they are implemented by engine/native.cpp.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <numeric>
#include <cstring>
#include <vector>
#include <string>
#include <memory>
#include <iostream>
#include <functional>
extern "C" {
uint64_t ve_sym_bv(const char *name, int idx, int bits);
int64_t ve_sym_int(const char *name, int idx, int64_t lo, int64_t hi);
double ve_sym_real(const char *name, int idx);
int ve_choice(const char *name, int idx, int n);
int64_t ve_concretize(int64_t v);
int64_t ve_param(const char *name, int64_t dflt);
void ve_assume(int c);
void ve_check(int c, const char *msg);
void ve_fail(const char *msg);
void ve_reach(const char *name);
void ve_merge_begin();
void ve_merge_end();
int ve_automerge(int on);
int ve_lazy(int on); // on: branches are not checked for feasibility
int ve_native();
int ve_is_sym(int64_t x);
void ve_end_path();
void ve_note(const char *s);
void ve_trace(const char *name, int64_t v);
void ve_trace_real(const char *name, double v);
void ve_dump(const char *name, int64_t v);
void ve_dump_real(const char *name, double v);
}
#define VE_CHECK(c, msg) ve_check((c) ? 1 : 0, msg)
#define VE_ASSUME(c) ve_assume((c) ? 1 : 0)
#define VE_ENTRY(name) extern "C" __attribute__((noinline, used)) void name()
// numerical agreement: exact under the solver, tolerance natively
static inline bool ve_near(double a, double b, double scale = 1.0) {
  if (!ve_native()) return a == b;
  double d = std::fabs(a - b), s = std::fmax(std::fabs(scale), std::fmax(std::fabs(a), std::fabs(b)));
  return d <= 1e-7 * s;
}
// strict order that natively needs a margin
static inline bool ve_lt(double a, double b) { return ve_native() ? a < b + 1e-9 * (1 + std::fabs(a) + std::fabs(b)) : a < b; }
static inline bool ve_le(double a, double b) { return ve_native() ? a <= b + 1e-9 * (1 + std::fabs(a) + std::fabs(b)) : a <= b; }
static inline int ve_int(const char *n, int i, int64_t lo, int64_t hi) { return (int)ve_sym_int(n, i, lo, hi); }
