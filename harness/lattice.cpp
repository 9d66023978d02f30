#include "ve.h"
#include <numeric>
#include <ftk/mesh/lattice.hh>
#include <ftk/mesh/lattice_partitioner.hh>
#include <ftk/external/diy/types.hpp>
using ftk::lattice;
typedef std::vector<size_t> V;
static lattice make(int nd, int lo, int hi, int mx, V &st, V &sz) {
  for (int i = 0; i < nd; i++) { st.push_back((size_t)ve_sym_int("start", i, lo, hi)); sz.push_back((size_t)ve_sym_int("size", i, 1, mx)); }
  return lattice(st, sz);
}
// index conversion is a bijection
VE_ENTRY(lat_roundtrip) {
  int nd = ve_param("nd", 2), mx = ve_param("max", 8); V st, sz; lattice l = make(nd, -100, 100, mx, st, sz);
  std::vector<int> p; int in = 1;
  for (int i = 0; i < nd; i++) { int64_t o = ve_sym_int("off", i, 0, mx - 1); VE_ASSUME(o < (int64_t)sz[i]); p.push_back((int)((int64_t)st[i] + o)); }
  uint64_t k = l.to_integer(p); uint64_t n = 1; for (int i = 0; i < nd; i++) n *= sz[i];
  VE_CHECK(l.n() == n, "n() is the product of the sizes");
  VE_CHECK(k < l.n(), "index within [0,n)");
  auto q = l.from_integer(k); in = q.size() == (size_t)nd; VE_CHECK(in, "dimension");
  for (int i = 0; i < nd; i++) VE_CHECK(q[i] == p[i], "from_integer(to_integer(p)) == p");
  if (ve_param("i32", 0)) { int ki = l.to_integer<int>(p); VE_CHECK(ki == (int)k, "int variant"); auto q2 = l.from_integer<int>(ki);
    for (int i = 0; i < nd; i++) VE_CHECK(q2[i] == p[i], "int variant round trip"); }
  ve_reach("end");
}
// and onto: every integer below n comes from a point inside
VE_ENTRY(lat_onto) {
  int nd = ve_param("nd", 2), mx = ve_param("max", 8); V st, sz; lattice l = make(nd, -100, 100, mx, st, sz);
  int64_t lim = 1; for (int i = 0; i < nd; i++) lim *= mx; uint64_t k = (uint64_t)ve_sym_int("k", 0, 0, lim - 1); VE_ASSUME(k < l.n());
  auto q = l.from_integer(k); for (int i = 0; i < nd; i++) { int64_t o = (int64_t)q[i] - (int64_t)st[i]; VE_CHECK((o >= 0) & (o < (int64_t)sz[i]), "from_integer(k) lies inside"); }
  VE_CHECK(l.to_integer(q) == k, "to_integer(from_integer(k)) == k"); ve_reach("end");
}
// first dimension fastest: the documented linear order
VE_ENTRY(lat_formula) {
  int nd = ve_param("nd", 3); V st, sz; lattice l = make(nd, -1000, 1000, 30000, st, sz);
  std::vector<int> p; for (int i = 0; i < nd; i++) { int64_t o = ve_sym_int("off", i, 0, 30000); VE_ASSUME(o < (int64_t)sz[i]); p.push_back((int)((int64_t)st[i] + o)); }
  uint64_t e = 0; for (int i = nd - 1; i >= 0; i--) e = e * sz[i] + (uint64_t)((int64_t)p[i] - (int64_t)st[i]);
  VE_CHECK(l.to_integer(p) == e, "row order: first coordinate fastest"); 
  ve_reach("end");
}
VE_ENTRY(lat_contains) {
  int nd = ve_param("nd", 3); V st, sz; lattice l = make(nd, 0, 1000000, 1000000, st, sz);
  V p; int in = 1; for (int i = 0; i < nd; i++) { p.push_back((size_t)ve_sym_int("p", i, 0, 3000000)); in &= (p[i] >= st[i]) & (p[i] <= l.upper_bound(i)); }
  VE_CHECK(l.contains(p) == (in != 0), "contains exactly the points within the bounds");
  int in2 = 1; auto lb = l.lower_bounds(), ub = l.upper_bounds(); for (int i = 0; i < nd; i++) { VE_CHECK((lb[i] == st[i]) & (ub[i] == st[i] + sz[i] - 1) & (l.lower_bound(i) == lb[i]) & (l.upper_bound(i) == ub[i]) & (l.start(i) == st[i]) & (l.size(i) == sz[i]), "bounds agree"); in2 &= (p[i] >= lb[i]) & (p[i] <= ub[i]); }
  VE_CHECK(in2 == in, "same"); VE_CHECK(l.nd() == (size_t)nd, "nd"); ve_reach("end");
}
VE_ENTRY(lat_reshape) {
  int nd = ve_param("nd", 3); std::vector<int> si, st; V sz, s0; for (int i = 0; i < nd; i++) { si.push_back(ve_int("size", i, 1, 1000)); sz.push_back(si[i]); st.push_back(ve_int("start", i, 0, 1000)); s0.push_back(st[i]); }
  lattice a; a.reshape(sz); lattice b; b.reshape(si); lattice c(nd, si.data()); lattice d; d.reshape(st, si); lattice e(s0, sz); lattice f(sz);
  for (int i = 0; i < nd; i++) { VE_CHECK((a.start(i) == 0) & (b.start(i) == 0) & (c.start(i) == 0) & (f.start(i) == 0) & (d.start(i) == s0[i]) & (e.start(i) == s0[i]), "reshape keeps starts"); VE_CHECK((a.size(i) == sz[i]) & (b.size(i) == sz[i]) & (c.size(i) == sz[i]) & (d.size(i) == sz[i]) & (e.size(i) == sz[i]) & (f.size(i) == sz[i]), "sizes"); 
    VE_CHECK((a.prod_[i] == b.prod_[i]) & (a.prod_[i] == c.prod_[i]) & (a.prod_[i] == d.prod_[i]) & (a.prod_[i] == e.prod_[i]), "strides"); }
  // conversion to and from block bounds
  lattice g(e.to_diy_bounds()); for (int i = 0; i < nd; i++) VE_CHECK((g.start(i) == e.start(i)) & (g.size(i) == e.size(i)) & (g.prod_[i] == e.prod_[i]), "diy bounds round trip");
  // reshape of an existing lattice
  e.reshape(sz); ve_reach("end");
}
// ---------------------------------------------------------------- partitioning
static void checkPart(const lattice &l, const ftk::lattice_partitioner &lp, int nd, int np, const V &gl, const V &gh) {
  VE_CHECK(lp.np() == (size_t)np, "requested number of blocks");
  if (lp.np() != (size_t)np) return;
  // every point of the domain is in exactly one core
  V p; for (int i = 0; i < nd; i++) { int64_t o = ve_sym_int("pt", i, 0, 1 << 20); VE_ASSUME(o < (int64_t)l.size(i)); p.push_back(l.start(i) + (size_t)o); }
  int cnt = 0; for (int b = 0; b < np; b++) { auto &c = lp.get_core(b); int in = 1; for (int i = 0; i < nd; i++) in &= (p[i] >= c.start(i)) & (p[i] < c.start(i) + c.size(i)); cnt += in; }
  VE_CHECK(cnt == 1, "each point in exactly one core");
  for (int b = 0; b < np; b++) { auto &c = lp.get_core(b), &e = lp.get_ext(b);
    for (int i = 0; i < nd; i++) {
      VE_CHECK((c.start(i) >= l.start(i)) & (c.start(i) + c.size(i) <= l.start(i) + l.size(i)) & (c.size(i) >= 1), "core inside the domain and not empty");
      VE_CHECK((e.start(i) >= l.start(i)) & (e.start(i) + e.size(i) <= l.start(i) + l.size(i)), "extent inside the domain");
      VE_CHECK((e.start(i) <= c.start(i)) & (e.start(i) + e.size(i) >= c.start(i) + c.size(i)), "extent contains core");
      size_t lo = c.start(i) - e.start(i), hi = e.start(i) + e.size(i) - c.start(i) - c.size(i), dl = c.start(i) - l.start(i), dh = l.start(i) + l.size(i) - c.start(i) - c.size(i);
      size_t g0 = gl.empty() ? 0 : gl[i], g1 = gh.empty() ? 0 : gh[i];
      VE_CHECK((lo == (g0 < dl ? g0 : dl)) & (hi == (g1 < dh ? g1 : dh)), "ghost width is the requested one, cut at the domain boundary");
    } }
  ve_reach("end");
}
VE_ENTRY(part_free) { // np blocks, no constraint, symbolic ghosts
  int nd = ve_param("nd", 2), np = 1 + ve_choice("np", 0, ve_param("maxnp", 6)); V st, sz; lattice l = make(nd, 0, 1000, 1 << 20, st, sz);
  for (int i = 0; i < nd; i++) VE_ASSUME(sz[i] >= (size_t)np);
  V g0(nd), g1(nd), given; int gm = ve_choice("ghostmode", 0, 3);
  for (int i = 0; i < nd; i++) { g0[i] = (size_t)ve_sym_int("ghost_lo", i, 0, 1000); g1[i] = (size_t)ve_sym_int("ghost_hi", i, 0, 1000); }
  ftk::lattice_partitioner lp(l);
  if (gm == 0) { lp.partition(np); checkPart(l, lp, nd, np, V(), V()); }
  else if (gm == 1) { lp.partition(np, given, g0); checkPart(l, lp, nd, np, g0, g0); }
  else { lp.partition(np, given, g0, g1); checkPart(l, lp, nd, np, g0, g1); }
}
VE_ENTRY(part_given) { // block counts pinned in some dimensions
  int nd = ve_param("nd", 2); V st, sz; lattice l = make(nd, 0, 1000, 1 << 20, st, sz); V g0(nd), g1(nd), given(nd); int np = 1; bool free = false;
  for (int i = 0; i < nd; i++) { given[i] = ve_choice("given", i, 4); if (given[i]) np *= given[i]; else free = true; g0[i] = (size_t)ve_sym_int("ghost_lo", i, 0, 1000); g1[i] = (size_t)ve_sym_int("ghost_hi", i, 0, 1000); }
  bool allz = true; for (auto x : given) if (x) allz = false; if (allz) ve_end_path();
  int extra = free ? 1 + ve_choice("extra", 0, 6) : 1; np *= extra; for (int i = 0; i < nd; i++) VE_ASSUME(sz[i] >= (size_t)np);
  ftk::lattice_partitioner lp(l); lp.partition(np, given, g0, g1); checkPart(l, lp, nd, np, g0, g1);
  // pinned dimensions have exactly that many distinct block starts
  if (lp.np() == (size_t)np) for (int i = 0; i < nd; i++) if (given[i]) { int distinct = 0; for (int b = 0; b < np; b++) { int fresh = 1; for (int c = 0; c < b; c++) fresh &= lp.get_core(c).start(i) != lp.get_core(b).start(i); distinct += fresh; } VE_CHECK(distinct == (int)given[i], "pinned dimension gets that many blocks"); }
}
