// P06-P08 regular simplicial mesh
#include "ve.h"
#include <set>
#include <map>
#include <mutex>
#include <ftk/mesh/simplicial_regular_mesh.hh>
using namespace ftk;
#define END ve_reach("end")
typedef simplicial_regular_mesh Mesh; typedef simplicial_regular_mesh_element Elem; typedef std::vector<int> VI; typedef std::vector<size_t> VS;
static std::mutex mx_;
static int fact(int n) { int r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
VE_ENTRY(rm_init) { int nd = (int)ve_param("nd", 2); Mesh m(nd); VE_CHECK(m.ntypes(0) == 1, "one vertex type"); VE_CHECK(m.ntypes(nd) == fact(nd), "n! cells"); END; }
// a mesh over a symbolic domain
static void domain(Mesh &m, int nd, int lo, int hi, int mx, VI &lb, VI &ub) { for (int i = 0; i < nd; i++) { int l = ve_int("lb", i, lo, hi), s = ve_param("fix", 0) ? mx : ve_int("size", i, 1, mx); lb.push_back(l); ub.push_back(l + s - 1); } m.set_lb_ub(lb, ub); }
VE_ENTRY(rm_roundtrip) { int nd = (int)ve_param("nd", 2), mx = (int)ve_param("max", 16); Mesh m(nd); VI lb, ub; domain(m, nd, -1000, 1000, mx, lb, ub);
  int d = ve_choice("d", 0, nd + 1), nt = m.ntypes(d); int t = ve_int("type", 0, 0, nt - 1); VI c; for (int i = 0; i < nd; i++) { int o = ve_int("off", i, 0, mx - 1); VE_ASSUME(o <= ub[i] - lb[i]); c.push_back(lb[i] + o); }
  Elem e(c, d, t); uint64_t k = e.to_integer(m); VE_CHECK(k < m.n(d), "id within [0, number of elements)"); Elem f(m, d, k); VE_CHECK(f.type == t, "type survives"); VE_CHECK(f.dim == d, "dimension survives"); for (int i = 0; i < nd; i++) VE_CHECK(f.corner[i] == c[i], "corner survives"); VE_CHECK(f == e, "equality"); VE_CHECK(!(f != e), "inequality");
  uint64_t np = 1; for (int i = 0; i < nd; i++) np *= (uint64_t)(ub[i] - lb[i] + 1); VE_CHECK(m.n(d) == np * (uint64_t)nt, "number of elements is points times types"); VE_CHECK((size_t)m.n(d, ELEMENT_SCOPE_ORDINAL) + m.n(d, ELEMENT_SCOPE_INTERVAL) == m.n(d), "ordinal and interval elements are all"); END; }
// numbering relative to a sub-domain
VE_ENTRY(rm_work) { int nd = (int)ve_param("nd", 2), mx = (int)ve_param("max", 16); Mesh m(nd); VI lb, ub; for (int i = 0; i < nd; i++) lb.push_back(-2000), ub.push_back(2000 + mx); m.set_lb_ub(lb, ub); VS st, sz; for (int i = 0; i < nd; i++) st.push_back((size_t)(int64_t)ve_int("start", i, -1000, 1000)), sz.push_back((size_t)ve_int("size", i, 1, mx)); lattice l(st, sz);
  int d = ve_choice("d", 0, nd + 1), scope = ve_choice("scope", 0, 3), nt = m.ntypes(d, scope); if (nt == 0) { ve_reach("end"); return; }
  // corner and rank of the type within the scope determine the index and are determined by it
  int rank = ve_int("rank", 0, 0, nt - 1); VI c; uint64_t cell = 0, pr = 1; for (int i = 0; i < nd; i++) { int64_t o = ve_sym_int("off", i, 0, mx - 1); VE_ASSUME(o < (int64_t)sz[i]); c.push_back((int)((int64_t)st[i] + o)); cell += (uint64_t)o * pr; pr *= sz[i]; }
  size_t k = cell * nt + rank; VE_CHECK(k < l.n() * nt, "indices are the numbers below cells times types");
  Elem e(m, d, k, l, scope); VE_CHECK(e.dim == d, "dimension"); for (int i = 0; i < nd; i++) VE_CHECK(e.corner[i] == c[i], "corner of the index-th element"); int r = -1, cnt = 0; for (int t = 0; t < m.ntypes(d); t++) { Elem q(lb, d, t); if (scope == 0 || q.is_ordinal(m) == (scope == ELEMENT_SCOPE_ORDINAL)) { if (e.type == t) r = cnt; cnt++; } } VE_CHECK(cnt == nt, "number of types of the scope"); VE_CHECK(r == rank, "type of the index-th element, in the scope");
  VE_CHECK(e.to_work_index(m, l, scope) == cell * nt, "to_work_index gives the first index of the cell"); END; }
// strict total order consistent with equality, elements of one dimension
VE_ENTRY(rm_less) { int nd = (int)ve_param("nd", 2); std::vector<Elem> e; for (int j = 0; j < 3; j++) { VI c; for (int i = 0; i < nd; i++) c.push_back(ve_int("c", j * 8 + i, -1000000, 1000000)); e.push_back(Elem(c, 1, ve_int("t", j, 0, 100))); }
  ve_automerge(1); bool ab = e[0] < e[1], ba = e[1] < e[0], bc = e[1] < e[2], ac = e[0] < e[2], eq = e[0] == e[1], gt = e[0] > e[1], ne = e[0] != e[1], aa = e[0] < e[0]; ve_automerge(0);
  VE_CHECK(!aa, "irreflexive"); VE_CHECK((int)ab + (int)ba + (int)eq == 1, "exactly one of less, greater, equal"); VE_CHECK(!(ab & bc) | ac, "transitive"); VE_CHECK(gt == ba, "greater is less reversed"); VE_CHECK(ne == !eq, "inequality"); END; }
// ---- P07
static std::set<VI> vset(const Elem &e, const Mesh &m) { auto v = e.vertices(m); return std::set<VI>(v.begin(), v.end()); }
static VI corner0(int nd) { VI c; for (int i = 0; i < nd; i++) c.push_back(ve_int("c", i, -1000000, 1000000)); return c; }
// relative position to the corner: keeps everything concrete but the corner itself
static VI rel(const VI &v, const VI &c) { VI r; for (size_t i = 0; i < v.size(); i++) r.push_back((int)ve_concretize(v[i] - c[i])); return r; }
static std::set<VI> rset(const Elem &e, const Mesh &m, const VI &c) { std::set<VI> s; for (auto &v : e.vertices(m)) s.insert(rel(v, c)); return s; }
static std::vector<int> key(const Elem &e, const VI &c) { VI k = rel(e.corner, c); k.push_back(e.dim); k.push_back(e.type); return k; }
VE_ENTRY(rm_sides) { int nd = (int)ve_param("nd", 2), d0 = (int)ve_param("d", -1); Mesh m(nd); VI c = corner0(nd); { VI lb, ub; for (int i = 0; i < nd; i++) lb.push_back(-2000000), ub.push_back(2000000); m.set_lb_ub(lb, ub); }
  for (int d = 0; d <= nd; d++) if (d0 < 0 || d == d0) { std::set<std::set<VI>> shapes; for (int t = 0; t < m.ntypes(d); t++) { Elem e(c, d, t); auto vs = rset(e, m, c); VE_CHECK(vs.size() == (size_t)d + 1, "d + 1 distinct vertices"); VI mn(nd, 9), mx(nd, -9); for (auto &v : vs) for (int i = 0; i < nd; i++) { VE_CHECK((v[i] == 0) | (v[i] == 1), "vertices at most one step from the corner"); mn[i] = std::min(mn[i], v[i]); } for (int i = 0; i < nd; i++) VE_CHECK(mn[i] == 0, "the corner is the lowest point"); VE_CHECK(shapes.insert(vs).second, "types have distinct vertex sets");
    // a chain: vertices ordered componentwise (the simplices of one triangulation of the cell)
    { const VI *p = nullptr; for (auto &v : vs) { if (p) { bool le = true; for (int i = 0; i < nd; i++) le &= (*p)[i] <= v[i]; VE_CHECK(le, "vertices form a chain"); } p = &v; } }
    auto ss = e.sides(m); VE_CHECK(ss.size() == (d == 0 ? 0u : (size_t)d + 1), "d + 1 sides"); std::set<std::set<VI>> got, want; for (auto &s : ss) { VE_CHECK(s.dim == d - 1, "side dimension"); VE_CHECK((s.type >= 0) & (s.type < m.ntypes(d - 1)), "side type"); got.insert(rset(s, m, c)); bool found = false; for (auto &q : s.side_of(m)) found |= key(q, c) == key(e, c); VE_CHECK(found, "a side lists the element as parent"); }
    if (d) for (auto &v : vs) { auto w = vs; w.erase(v); want.insert(w); } VE_CHECK(got == want, "sides are the faces spanned by all but one vertex");
    auto ps = e.side_of(m); std::set<VI> pk; for (auto &q : ps) { VE_CHECK(pk.insert(key(q, c)).second, "parents listed once"); VE_CHECK(q.dim == d + 1, "parent dimension"); bool found = false; for (auto &s : q.sides(m)) found |= key(s, c) == key(e, c); VE_CHECK(found, "a parent lists the element as side"); } if (d == nd) VE_CHECK(ps.empty(), "cells have no parents"); else VE_CHECK(!ps.empty(), "every face has parents"); if (d == nd - 1) VE_CHECK(ps.size() == 2, "every facet has two cells"); } }
  END; }
// the simplices tile: a generic point of the unit cell lies in exactly one of them
VE_ENTRY(rm_tile) { int nd = (int)ve_param("nd", 2); Mesh m(nd); double x[4]; for (int i = 0; i < nd; i++) { x[i] = ve_sym_real("x", i); VE_ASSUME((x[i] > 0) & (x[i] < 1)); } for (int i = 0; i < nd; i++) for (int j = 0; j < i; j++) VE_ASSUME(x[i] != x[j]); int n = 0; for (int t = 0; t < m.ntypes(nd); t++) { auto v = m.unit_simplex(nd, t); // chain 0 = v0 < v1 < ... < vn = 1: barycentric coordinates are differences of coordinates
    std::sort(v.begin(), v.end()); VI order; for (int k = 0; k < nd; k++) { int who = -1, cnt = 0; for (int i = 0; i < nd; i++) if (v[k + 1][i] != v[k][i]) who = i, cnt++; VE_CHECK(cnt == 1, "one axis per step"); order.push_back(who); } bool in = true; for (int k = 0; k + 1 < nd; k++) in &= x[order[k]] > x[order[k + 1]]; n += (int)in; } VE_CHECK(n == 1, "exactly one cell contains a generic point"); END; }
VE_ENTRY(rm_valid) { int nd = (int)ve_param("nd", 2), mx = 1000; Mesh m(nd); VI lb, ub; domain(m, nd, -1000, 1000, mx, lb, ub); int d = ve_choice("d", 0, nd + 1), t = ve_choice("t", d, m.ntypes(d)); VI c; for (int i = 0; i < nd; i++) c.push_back(ve_int("c", i, -5000, 5000)); Elem e(c, d, t); auto u = m.unit_simplex(d, t); ve_automerge(1); bool ex = true; for (auto &v : u) for (int i = 0; i < nd; i++) ex &= (c[i] + v[i] >= lb[i]) & (c[i] + v[i] <= ub[i]); bool r = e.valid(m); ve_automerge(0); VE_CHECK(r == ex, "valid exactly when all vertices are inside"); Elem b(c, d, m.ntypes(d)); VE_CHECK(!b.valid(m), "an unknown type is invalid"); END; }
// ---- P08
VE_ENTRY(rm_for) { int nd = (int)ve_param("nd", 2), mx = (int)ve_param("max", 3), d = (int)ve_param("d", 1), how = (int)ve_param("how", 0), mt = (int)ve_param("maxthreads", 3); Mesh m(nd); VI lb, ub, st, sz; for (int i = 0; i < nd; i++) { int s = 1 + ve_choice("size", i, mx); lb.push_back(ve_int("lb", i, -1000, 1000)); sz.push_back(s); ub.push_back(lb[i] + s - 1); st.push_back(lb[i]); } m.set_lb_ub(lb, ub);
  int nth = 1 + ve_choice("nthreads", 0, mt), scope = how; VS s0, z0; if (how == 0) { s0.assign(st.begin(), st.end()); z0.assign(sz.begin(), sz.end()); }
  std::map<VI, int> cnt; auto f = [&](Elem e) { std::lock_guard<std::mutex> g(mx_); VI k = rel(e.corner, st); k.push_back(e.dim); k.push_back(e.type); cnt[k]++; };
  int T = 0; if (how == 0) m.element_for(d, f, FTK_XL_NONE, nth, false); else { T = ve_int("t", 0, -3, 3); if (how == 1) m.element_for_ordinal(d, lb[nd - 1] + T, f, FTK_XL_NONE, nth, false); else m.element_for_interval(d, lb[nd - 1] + T, lb[nd - 1] + T + 1, f, FTK_XL_NONE, nth, false); sz[nd - 1] = 1; T = (int)ve_concretize(T); }
  size_t np = 1; for (int i = 0; i < nd; i++) np *= sz[i]; int nt = 0; for (int t = 0; t < m.ntypes(d); t++) { auto v = m.unit_simplex(d, t); bool ord = true; for (auto &w : v) ord &= w[nd - 1] == 0; if (how == 1 && !ord) continue; if (how == 2 && ord) continue; nt++; for (size_t p = 0; p < np; p++) { VI k; size_t r = p; for (int i = 0; i < nd; i++) k.push_back((int)(r % sz[i])), r /= sz[i]; k[nd - 1] += T; k.push_back(d); k.push_back(t); VE_CHECK(cnt.count(k) && cnt[k] == 1, "element visited exactly once"); } } VE_CHECK(cnt.size() == np * nt, "nothing else is visited"); END; }
// traversal of a sub-domain in every scope
VE_ENTRY(rm_for_sub) { int nd = (int)ve_param("nd", 2), mx = (int)ve_param("max", 2), d = (int)ve_param("d", 1); Mesh m(nd); VI lb, ub; for (int i = 0; i < nd; i++) lb.push_back(-2000), ub.push_back(2000); m.set_lb_ub(lb, ub); VI st, sz; VS s0, z0; for (int i = 0; i < nd; i++) { st.push_back(ve_int("start", i, -1000, 1000)); sz.push_back(1 + ve_choice("size", i, mx)); s0.push_back((size_t)(int64_t)st[i]); z0.push_back(sz[i]); } lattice l(s0, z0); int scope = ve_choice("scope", 0, 3), nth = 1 + ve_choice("nthreads", 0, 2);
  std::map<VI, int> cnt; m.element_for(d, l, scope, [&](Elem e) { std::lock_guard<std::mutex> g(mx_); VI k = rel(e.corner, st); k.push_back(e.dim); k.push_back(e.type); cnt[k]++; }, FTK_XL_NONE, nth, false);
  size_t np = 1; for (int i = 0; i < nd; i++) np *= sz[i]; size_t nt = 0; for (int t = 0; t < m.ntypes(d); t++) { auto v = m.unit_simplex(d, t); bool ord = true; for (auto &w : v) ord &= w[nd - 1] == 0; if (scope == 1 && !ord) continue; if (scope == 2 && ord) continue; nt++; for (size_t p = 0; p < np; p++) { VI k; size_t r = p; for (int i = 0; i < nd; i++) k.push_back((int)(r % sz[i])), r /= sz[i]; k.push_back(d); k.push_back(t); VE_CHECK(cnt.count(k) && cnt[k] == 1, "element visited exactly once"); } } VE_CHECK(cnt.size() == np * nt, "nothing else is visited"); END; }
// ordinal: within one slice; interval: exactly two consecutive ones
VE_ENTRY(rm_scope) { int nd = (int)ve_param("nd", 2); Mesh m(nd); VI c = corner0(nd); for (int d = 0; d <= nd; d++) { int no = 0, ni = 0; for (int t = 0; t < m.ntypes(d); t++) { Elem e(c, d, t); bool o = e.is_ordinal(m); std::set<int> ts; for (auto &v : rset(e, m, c)) ts.insert(v[nd - 1]); if (o) { no++; VE_CHECK((ts.size() == 1) & (*ts.begin() == 0), "ordinal elements lie in their slice"); } else { ni++; VE_CHECK((ts.size() == 2) & (*ts.begin() == 0) & (*ts.rbegin() == 1), "interval elements span two consecutive slices"); } } VE_CHECK((no == m.ntypes(d, ELEMENT_SCOPE_ORDINAL)) & (ni == m.ntypes(d, ELEMENT_SCOPE_INTERVAL)) & (no + ni == m.ntypes(d)), "the scopes partition the elements"); } END; }
