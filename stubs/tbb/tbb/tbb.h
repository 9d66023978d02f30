// Model of the part of TBB that ftk uses, by its documented contract:
// parallel_for calls the body on disjoint sub-ranges covering the range, in any order.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" int ve_choice(const char *name, int idx, int n);
extern "C" int64_t ve_param(const char *name, int64_t dflt);
namespace tbb {
template <class T> struct blocked_range { T b, e; blocked_range(T b_, T e_) : b(b_), e(e_) {} T begin() const { return b; } T end() const { return e; } bool empty() const { return !(b < e); } size_t size() const { return e - b; } };
inline int &model_idx() { static int i = 0; return i; }
template <class T, class F> void parallel_for(const blocked_range<T> &r, const F &f) {
  if (r.empty()) return;
  if (r.size() > 1 && model_idx() < 2 * ve_param("tbbsplits", 100) && ve_choice("tbbsplit", model_idx()++, 2)) { T m = r.b + r.size() / 2; blocked_range<T> x(r.b, m), y(m, r.e); if (ve_choice("tbborder", model_idx()++, 2)) { parallel_for(y, f); parallel_for(x, f); } else { parallel_for(x, f); parallel_for(y, f); } }
  else f(r);
}
}
