// P10 unstructured triangle mesh, P11 extruded triangle mesh
#include "ve.h"
#include <set>
#include <map>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
using namespace ftk;
typedef simplicial_unstructured_2d_mesh<> M2;
typedef simplicial_unstructured_extruded_2d_mesh_implicit<> ME;
#define END ve_reach("end")
// topologies: triangles over abstract vertices
static const int topo_[][16] = { // nv, nt, triangles
  {3, 1, 0, 1, 2}, {4, 2, 0, 1, 2, 2, 1, 3}, {5, 2, 0, 1, 2, 2, 3, 4}, {4, 3, 0, 1, 2, 0, 2, 3, 0, 3, 1}, {5, 3, 0, 1, 2, 1, 3, 2, 2, 3, 4},
  {4, 4, 0, 1, 2, 0, 2, 3, 0, 3, 1, 1, 3, 2}, {6, 2, 0, 1, 2, 3, 4, 5}, {5, 4, 0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1}};
struct Base { std::vector<int> tri; int nv, nt; };
// symbolic vertex labels: a permutation of 0..nv-1 plus unused vertices; symbolic orientation of the triangles
static Base base() {
  int tp = (int)ve_param("topo", 1), extra = (int)ve_param("extra", 0); Base b; b.nv = topo_[tp][0] + extra; b.nt = topo_[tp][1]; int n = topo_[tp][0];
  std::vector<int> p(n); for (int i = 0; i < n; i++) { p[i] = ve_int("label", i, 0, b.nv - 1); for (int j = 0; j < i; j++) VE_ASSUME(p[i] != p[j]); }
  if (ve_param("fixperm", 0)) for (int i = 0; i < n; i++) VE_ASSUME(p[i] == (i * 2 + 1) % (b.nv | 1));
  for (int i = 0; i < n; i++) p[i] = (int)ve_concretize(p[i]);
  for (int t = 0; t < b.nt; t++) for (int j = 0; j < 3; j++) b.tri.push_back(p[topo_[tp][2 + 3 * t + j]]);
  return b;
}
// arbitrary connectivity: symbolic triangles on nv vertices
static Base base_any() {
  Base b; b.nv = (int)ve_param("nv", 4); b.nt = (int)ve_param("nt", 2);
  for (int i = 0; i < 3 * b.nt; i++) b.tri.push_back(ve_int("v", i, 0, b.nv - 1));
  for (int t = 0; t < b.nt; t++) VE_ASSUME((b.tri[3 * t] != b.tri[3 * t + 1]) & (b.tri[3 * t] != b.tri[3 * t + 2]) & (b.tri[3 * t + 1] != b.tri[3 * t + 2]));
  for (auto &x : b.tri) x = (int)ve_concretize(x);
  std::map<std::pair<int, int>, int> c; std::set<std::set<int>> s; bool ok = true;
  for (int t = 0; t < b.nt; t++) { std::set<int> q(b.tri.begin() + 3 * t, b.tri.begin() + 3 * t + 3); if (!s.insert(q).second) ok = false; for (int i : q) for (int j : q) if (i < j) if (++c[{i, j}] > 2) ok = false; }
  VE_ASSUME(ok); return b;
}
static std::shared_ptr<M2> make(const Base &b) {
  if (ve_param("vec", 0)) { std::vector<double> c; for (int i = 0; i < b.nv; i++) { c.push_back(i * 0.5); c.push_back(i * i); } return std::shared_ptr<M2>(new M2(c, b.tri)); }
  ndarray<double> c({2, (size_t)b.nv}); for (int i = 0; i < b.nv; i++) { c(0, i) = i * 0.5; c(1, i) = i * i; }
  ndarray<int> t({3, (size_t)b.nt}); for (int i = 0; i < 3 * b.nt; i++) t[i] = b.tri[i];
  return std::shared_ptr<M2>(new M2(c, t));
}
static std::set<int> tset(const Base &b, int t) { return std::set<int>(b.tri.begin() + 3 * t, b.tri.begin() + 3 * t + 3); }
static void check_mesh(const Base &b, const M2 &m) {
  std::set<std::pair<int, int>> E; std::map<int, std::set<int>> nb;
  for (int t = 0; t < b.nt; t++) { auto s = tset(b, t); for (int i : s) for (int j : s) { if (i < j) E.insert({i, j}); if (i != j) nb[i].insert(j); } }
  VE_CHECK(m.n(0) == (size_t)b.nv & m.n(2) == (size_t)b.nt & m.n(1) == E.size() & m.n(3) == 0, "number of vertices, edges and triangles"); VE_CHECK(m.nd() == 2, "dimension");
  std::set<std::pair<int, int>> E2;
  for (int e = 0; e < (int)m.n(1); e++) { int v[2]; int r = m.get_simplex(1, e, v); VE_CHECK(r == e, "an edge is returned under its own id"); VE_CHECK(v[0] < v[1], "edge vertices are sorted"); VE_CHECK(E.count({v[0], v[1]}) == 1, "every edge belongs to a triangle"); VE_CHECK(E2.insert({v[0], v[1]}).second, "every edge is listed once");
    int id = -7; VE_CHECK(m.find_edge(v, id) & (id == e), "edge lookup inverts the listing"); int w[2] = {v[1], v[0]}; id = -7; VE_CHECK(m.find_simplex(1, w, id) & (id == e), "edge lookup does not depend on the vertex order");
    VE_CHECK(m.sides(1, e) == std::set<int>({v[0], v[1]}), "the sides of an edge are its vertices");
    std::set<int> par; for (int t = 0; t < b.nt; t++) { auto s = tset(b, t); if (s.count(v[0]) && s.count(v[1])) par.insert(t); } VE_CHECK(m.side_of(1, e) == par, "an edge lists exactly the triangles containing it"); for (int t : par) VE_CHECK(m.sides(2, t).count(e) == 1, "parent and side relations are dual"); }
  for (int t = 0; t < b.nt; t++) { int v[3]; int r = m.get_simplex(2, t, v); VE_CHECK(r == t, "a triangle is returned under its own id"); auto s = tset(b, t); VE_CHECK(std::set<int>({v[0], v[1], v[2]}) == s & v[0] < v[1] & v[1] < v[2], "triangle vertices are the given ones, sorted");
    const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (auto &p : perm) { int w[3] = {v[p[0]], v[p[1]], v[p[2]]}, id = -7; VE_CHECK(m.find_triangle(w, id) & (id == t), "triangle lookup inverts the listing"); }
    int inv = 0; const int *o = &b.tri[3 * t]; for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) inv += o[i] > o[j]; VE_CHECK(m.get_triangle_chi(t) == (inv % 2 ? -1 : 1), "chirality is the parity of the given vertex order");
    auto sd = m.sides(2, t); VE_CHECK(sd.size() == 3, "three sides"); for (int e : sd) { int w[2]; m.get_edge(e, w); VE_CHECK(s.count(w[0]) == 1 & s.count(w[1]) == 1, "the sides of a triangle are its edges"); VE_CHECK(m.side_of(1, e).count(t) == 1, "side and parent relations are dual"); } }
  for (int v = 0; v < b.nv; v++) { std::set<int> es, ts; for (int e = 0; e < (int)m.n(1); e++) { int w[2]; m.get_edge(e, w); if (w[0] == v || w[1] == v) es.insert(e); } for (int t = 0; t < b.nt; t++) if (tset(b, t).count(v)) ts.insert(t);
    VE_CHECK(m.side_of(0, v) == es, "a vertex lists exactly its edges"); VE_CHECK(m.get_vertex_edge_vertex(v) == nb[v], "neighbours of a vertex are the other ends of its edges"); VE_CHECK(m.get_vertex_triangles()[v] == ts, "a vertex lists exactly its triangles");
    double x[3]; m.get_coords(v, x); VE_CHECK(x[0] == v * 0.5 & x[1] == v * v & x[2] == 0, "coordinates"); }
}
VE_ENTRY(um_topo) { Base b = base(); auto m = make(b); check_mesh(b, *m); END; }
VE_ENTRY(um_find) { Base b = ve_param("nt", 0) ? base_any() : base(); auto mp = make(b); const M2 &m = *mp; std::set<std::pair<int, int>> E; for (int t = 0; t < b.nt; t++) { auto s = tset(b, t); for (int i : s) for (int j : s) if (i < j) E.insert({i, j}); }
  // lookups of arbitrary vertex tuples
  { int q[2] = {ve_int("q", 0, 0, b.nv - 1), ve_int("q", 1, 0, b.nv - 1)}; q[0] = (int)ve_concretize(q[0]); q[1] = (int)ve_concretize(q[1]); int id; bool f = m.find_edge(q, id); VE_CHECK(f == (bool)E.count({std::min(q[0], q[1]), std::max(q[0], q[1])}), "an edge is found exactly if it exists");
    int u = (int)ve_concretize(ve_int("q", 2, 0, b.nv - 1)); int w[3] = {q[0], q[1], u}; std::set<int> s(w, w + 3); bool ex = false; for (int t = 0; t < b.nt; t++) if (tset(b, t) == s) ex = true; VE_CHECK(m.find_simplex(2, w, id) == ex, "a triangle is found exactly if it exists"); }
  END; }
VE_ENTRY(um_any) { Base b = base_any(); auto m = make(b); check_mesh(b, *m); END; }
// P11
static int fdiv(int a, int b) { int q = a / b, r = a % b; return r < 0 ? q - 1 : q; }
static std::shared_ptr<ME> mk(const Base &b) { return std::shared_ptr<ME>(new ME(make(b))); }
static int pick(const ME &m, int d, int &t) { int n = (int)m.n(d); int T = (int)ve_param("tmax", 3); int i = ve_choice("i", 0, n); t = ve_int("t", 0, -T, T); if (ve_param("conc", 0)) t = (int)ve_concretize(t); return t * n + i; }
VE_ENTRY(ex_ids) {
  Base b = base(); auto m = mk(b); int n0 = b.nv; int d = (int)ve_param("d", 3); int t; int k = pick(*m, d, t); int n = (int)m->n(d);
  VE_CHECK(n == (int)(m->n_ordinal(d) * (d < 3) + m->n_interval(d)), "elements of a slab are ordinal or interval");
  int i = k - t * n; int v[4]; int g = m->get_simplex(d, k, v); VE_CHECK(g == k, "an element is returned under its own id");
  for (int j = 0; j < d; j++) VE_CHECK(v[j] < v[j + 1], "vertices are distinct and increasing");
  int lo = t * n0; VE_CHECK(v[0] >= lo & v[0] < lo + n0, "the first vertex lies in the lower slice"); bool ord = d < 3 && i < (int)m->n_ordinal(d); bool in = d < 3 ? m->is_ordinal(d, k) : false; VE_CHECK(in == ord, "is_ordinal");
  for (int j = 0; j <= d; j++) { VE_CHECK(v[j] >= lo & v[j] < lo + (ord ? n0 : 2 * n0), "vertices lie in the slab; ordinal elements in one slice"); VE_CHECK(m->flat_vertex_time(v[j]) == t + (v[j] >= lo + n0), "time slice of a vertex"); VE_CHECK(m->flat_vertex_id(v[j]) == v[j] - lo - (v[j] >= lo + n0 ? n0 : 0), "base vertex of a vertex"); }
  if (!ord) VE_CHECK(v[d] >= lo + n0, "interval elements reach the upper slice");
  if (d > 0) { int id = -7; bool f = m->find_simplex(d, v, id); VE_CHECK(f & (id == k), "looking the vertex set up returns the same id"); }
  END; }
VE_ENTRY(ex_distinct) { // two different ids never share a vertex set
  Base b = base(); auto m = mk(b); int d = (int)ve_param("d", 3), n = (int)m->n(d); int t1 = ve_int("t", 0, -3, 3), t2 = ve_int("t", 1, -3, 3); int i = ve_choice("i", 0, n), j = ve_choice("i", 1, n); if (i == j) VE_ASSUME(t1 != t2);
  int v[4], w[4]; m->get_simplex(d, i + t1 * n, v); m->get_simplex(d, j + t2 * n, w); bool eq = true; for (int q = 0; q <= d; q++) eq &= v[q] == w[q]; VE_CHECK(!eq, "different ids have different vertex sets"); END; }
VE_ENTRY(ex_sides) {
  Base b = base(); auto m = mk(b); int t; int k = pick(*m, 3, t); int v[4]; m->get_simplex(3, k, v); auto s = m->sides(3, k); VE_CHECK(s.size() == 4, "a tetrahedron has four sides"); std::set<int> om;
  int cnt[4] = {0}; for (int f : s) { int w[3]; m->get_simplex(2, f, w); int miss = -1, ok = 0; for (int o = 0; o < 4; o++) { int u[3], c = 0; for (int j = 0; j < 4; j++) if (j != o) u[c++] = v[j]; if ((u[0] == w[0]) & (u[1] == w[1]) & (u[2] == w[2])) { cnt[o]++; ok++; } } VE_CHECK(ok == 1, "every side is spanned by three of the vertices"); auto p = m->side_of(2, f); VE_CHECK(p.count(k) == 1, "a side lists the tetrahedron as parent"); }
  for (int o = 0; o < 4; o++) VE_CHECK(cnt[o] == 1, "every face occurs once"); END; }
VE_ENTRY(ex_parents) {
  Base b = base(); auto m = mk(b); int t; int f = pick(*m, 2, t); auto p = m->side_of(2, f); int v[3]; m->get_simplex(2, f, v); for (int k : p) VE_CHECK(m->sides(3, k).count(f) == 1, "a parent lists the triangle as side");
  int n3 = (int)m->n(3); int c = 0; for (int dt = -1; dt <= 1; dt++) for (int i = 0; i < n3; i++) { int k = (t + dt) * n3 + i; int w[4]; m->get_simplex(3, k, w); int in = 0; for (int a = 0; a < 3; a++) for (int q = 0; q < 4; q++) in += v[a] == w[q]; if (in == 3) { c++; VE_CHECK(p.count(k) == 1, "every tetrahedron containing the triangle is listed"); } } VE_CHECK((int)p.size() == c, "number of parents"); END; }
// the tetrahedra of one prism tile it: a point (barycentric a,b,c; height h) lies in exactly one
VE_ENTRY(ex_tile) {
  Base b = base(); auto m = mk(b); int n2 = b.nt; int tr = ve_choice("tri", 0, n2); int tv[3]; std::set<int> s = tset(b, tr); int q = 0; for (int x : s) tv[q++] = x;
  double a[3]; a[0] = ve_sym_real("a", 0); a[1] = ve_sym_real("a", 1); a[2] = 1 - a[0] - a[1]; double h = ve_sym_real("h", 0); VE_ASSUME((a[0] > 0) & (a[1] > 0) & (a[2] > 0) & (h > 0) & (h < 1)); VE_ASSUME((h != a[2]) & (h != a[1] + a[2]));
  int inside = 0, nt3 = (int)m->n(3); for (int k = 0; k < nt3; k++) { int v[4]; m->get_simplex(3, k, v); bool mine = true; for (int j = 0; j < 4; j++) mine &= s.count(m->flat_vertex_id(v[j])) == 1; if (!mine) continue;
    // barycentric coordinates: all four vertices; unknowns solved by the prism structure: exactly one base vertex occurs twice
    int twice = -1, w[4], z[4]; for (int j = 0; j < 4; j++) { w[j] = m->flat_vertex_id(v[j]); z[j] = m->flat_vertex_time(v[j]); } int up = 0; double used = 0; for (int j = 0; j < 4; j++) { int c = 0; for (int l = 0; l < 4; l++) c += w[l] == w[j]; if (c == 2) twice = w[j]; } VE_CHECK(twice >= 0, "one base vertex occurs twice"); bool in = true; for (int j = 0; j < 4; j++) if (w[j] != twice && z[j]) for (int l = 0; l < 3; l++) if (tv[l] == w[j]) used += a[l]; double at = 0; for (int l = 0; l < 3; l++) if (tv[l] == twice) at = a[l]; double mu = h - used; in = (mu > 0) & (mu < at); inside += in; }
  VE_CHECK(inside == 1, "every interior point lies in exactly one tetrahedron"); END; }
VE_ENTRY(ex_for) { // iteration
  Base b = base(); auto m = mk(b); int d = (int)ve_param("d", 2), t = ve_int("t", 0, -3, 3); t = (int)ve_concretize(t); std::map<int, int> c; m->element_for_ordinal(d, t, [&](int k) { c[k]++; }, false, FTK_XL_NONE, 1); int n = (int)m->n(d), no = d < 3 ? (int)m->n_ordinal(d) : 0; VE_CHECK((int)c.size() == (d < 3 ? no : (int)m->n_ordinal(d)), "number of ordinal elements"); for (auto &x : c) VE_CHECK(x.second == 1 & x.first >= t * n & (d == 3 || x.first < t * n + no), "every ordinal element once");
  c.clear(); m->element_for_interval(d, t, [&](int k) { c[k]++; }, false, FTK_XL_NONE, 1); VE_CHECK(c.size() == m->n_interval(d), "number of interval elements"); for (auto &x : c) VE_CHECK(x.second == 1 & x.first >= t * n + no & x.first < t * n + n, "every interval element once"); END; }
