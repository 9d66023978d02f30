// P17 union-find, P18 connected components, P19 curves from components, P21 shortest paths and breadth-first search
#include "ve.h"
#include <set>
#include <map>
#include <list>
#include <queue>
#include <ftk/basic/union_find.hh>
#include <ftk/basic/simple_union_find.hh>
#include <ftk/ndarray.hh>
#include <ftk/algorithms/cca.hh>
#include <ftk/algorithms/hoshen_kopelman.hh>
#include <ftk/geometry/cc2curves.hh>
#include <ftk/algorithms/dijkstra.hh>
#include <ftk/algorithms/bfs.hh>
using namespace ftk;
#define END ve_reach("end")
typedef std::set<int> S;
static int pick(const char *n, int i, int lo, int hi) { return (int)ve_concretize(ve_sym_int(n, i, lo, hi)); }
// ---- union-find: reference partition
struct Ref { int n; int l[8]; Ref(int n) : n(n) { for (int i = 0; i < n; i++) l[i] = i; } void unite(int a, int b) { int x = l[a], y = l[b]; for (int i = 0; i < n; i++) if (l[i] == y) l[i] = x; } bool same(int a, int b) { return l[a] == l[b]; } int classes() { S s; for (int i = 0; i < n; i++) s.insert(l[i]); return (int)s.size(); } };
static const int ids[8] = {12, -3, 40, 5, 0, 900, -77, 41}; // element identifiers in no particular order
template <class UF> static void verify(UF &u, Ref &r, const int *id) { int roots = 0; int rep[8]; for (int i = 0; i < r.n; i++) { rep[i] = (int)u.find(id[i]); VE_CHECK(u.find(rep[i]) == rep[i], "the representative represents itself"); bool in = false; for (int j = 0; j < r.n; j++) in |= (id[j] == rep[i]) & r.same(i, j); VE_CHECK(in, "the representative belongs to the set"); }
  for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) VE_CHECK((rep[i] == rep[j]) == r.same(i, j), "same representative exactly if connected by unions"); for (int i = 0; i < r.n; i++) VE_CHECK((int)u.find(id[i]) == rep[i], "queries do not change representatives"); }
VE_ENTRY(uf_map) { int n = (int)ve_param("n", 4), k = (int)ve_param("k", 3); union_find<int> u; Ref r(n); for (int i = 0; i < n; i++) { VE_CHECK(!u.has(ids[i]), "unknown before insertion"); u.add(ids[i]); VE_CHECK(u.has(ids[i]) & u.is_root(ids[i]) & (u.parent(ids[i]) == ids[i]), "new element is alone"); }
  int q = (int)ve_param("queries", 1); for (int s = 0; s < k; s++) { int a = pick("a", s, 0, n - 1), b = pick("b", s, 0, n - 1); u.unite(ids[a], ids[b]); r.unite(a, b); if (q) { int x = pick("q", s, 0, n - 1); u.find(ids[x]); } }
  u.add(ids[0]); // inserting again changes nothing
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VE_CHECK(u.same_set(ids[i], ids[j]) == r.same(i, j), "same set exactly if connected by unions"); verify(u, r, ids);
  int nr = 0; for (int i = 0; i < n; i++) nr += u.is_root(ids[i]); VE_CHECK(nr == r.classes(), "exactly one root per set"); auto sets = u.get_sets(); VE_CHECK((int)sets.size() == r.classes(), "number of sets"); int tot = 0; for (auto &s : sets) { tot += (int)s.size(); VE_CHECK(!s.empty(), "sets are not empty"); int first = -1; for (int i = 0; i < n; i++) if (s.count(ids[i])) { if (first < 0) first = i; VE_CHECK(r.same(first, i), "a set holds connected elements only"); } } VE_CHECK(tot == n, "the sets are disjoint and cover all elements"); for (int i = 0; i < n; i++) VE_CHECK(!u.has(ids[i] + 1000), "nothing else was inserted"); END; }
VE_ENTRY(uf_simple) { int n = (int)ve_param("n", 5), k = (int)ve_param("k", 3); simple_union_find<size_t> u((size_t)n); Ref r(n); int id[8] = {0, 1, 2, 3, 4, 5, 6, 7}; if (ve_param("reset", 0)) { int a = pick("ra", 0, 0, n - 1), b = pick("rb", 0, 0, n - 1); u.unite(a, b); u.reset(); }
  for (int s = 0; s < k; s++) { int a = pick("a", s, 0, n - 1), b = pick("b", s, 0, n - 1); VE_CHECK(u.unite(a, b), "unite succeeds"); r.unite(a, b); if (ve_param("queries", 0) && s == k - 1) { int x = pick("q", s, 0, n - 1), y = pick("p", s, 0, n - 1); VE_CHECK(u.same_set(x, y) == r.same(x, y), "query during the history"); } }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VE_CHECK(u.same_set(i, j) == r.same(i, j), "same set exactly if connected by unions"); verify(u, r, id); END; }
// the elements of all unions and of the final query stay symbolic
VE_ENTRY(uf_sym) { int n = (int)ve_param("n", 4), k = (int)ve_param("k", 2); simple_union_find<size_t> u((size_t)n); int64_t l[8]; for (int i = 0; i < n; i++) l[i] = i; for (int s = 0; s < k; s++) { int64_t a = ve_sym_int("a", s, 0, n - 1), b = ve_sym_int("b", s, 0, n - 1); u.unite((size_t)a, (size_t)b); int64_t x = 0, y = 0; ve_merge_begin(); for (int i = 0; i < n; i++) { x += (i == a) * l[i]; y += (i == b) * l[i]; } for (int i = 0; i < n; i++) l[i] = l[i] + (l[i] == y) * (x - l[i]); ve_merge_end(); } int64_t p = ve_sym_int("p", 0, 0, n - 1), q = ve_sym_int("q", 0, 0, n - 1), x = 0, y = 0; for (int i = 0; i < n; i++) { x += (i == p) * l[i]; y += (i == q) * l[i]; } bool same = u.same_set((size_t)p, (size_t)q); VE_CHECK(same == (x == y), "same set exactly if connected by unions"); VE_CHECK(u.find(u.find((size_t)p)) == u.find((size_t)p), "representatives are stable"); END; }
// deep chains: unions along a path in any order, then one arbitrary query
VE_ENTRY(uf_chain) { int n = (int)ve_param("n", 6); union_find<int> u; simple_union_find<int> v(n); for (int i = 0; i < n; i++) u.add(i); std::vector<int> left; for (int i = 0; i + 1 < n; i++) left.push_back(i); int cut = pick("cut", 0, 0, n - 2); for (int s = 0; s + 1 < n; s++) { int k = pick("o", s, 0, (int)left.size() - 1); int e = left[k]; left.erase(left.begin() + k); if (e == cut) continue; u.unite(e, e + 1); v.unite(e + 1, e); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool same = (i <= cut) == (j <= cut); VE_CHECK(u.same_set(i, j) == same, "chain (map)"); VE_CHECK(v.same_set(i, j) == same, "chain (vector)"); } END; }
// ---- graphs with symbolic links
struct G { int n; unsigned char a[8][8]; bool reach[8][8]; S nb(int i) const { S s; for (int j = 0; j < n; j++) if (a[i][j]) s.insert(j); return s; } };
static G graph(int n, bool selfs = false) { G g; g.n = n; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) g.a[i][j] = g.a[j][i] = i == j ? (selfs ? 1 : 0) : (unsigned char)pick("e", i * 8 + j, 0, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g.reach[i][j] = i == j || g.a[i][j]; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g.reach[i][j] |= g.reach[i][k] && g.reach[k][j]; return g; }
static void comps(const G &g, const S &nodes, const std::vector<S> &cc, const bool (*rch)[8]) { size_t tot = 0; for (auto &c : cc) { VE_CHECK(!c.empty(), "groups are not empty"); tot += c.size(); for (int x : c) VE_CHECK(nodes.count(x), "groups hold given nodes only"); } VE_CHECK(tot == nodes.size(), "the groups are disjoint and hold every node"); for (int x : nodes) for (int y : nodes) { bool same = false; for (auto &c : cc) same |= c.count(x) && c.count(y); VE_CHECK(same == rch[x][y], "same group exactly if joined by a path"); } }
static void close(const G &g, const S &q, bool (*r)[8]) { for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) r[i][j] = i == j || (g.a[i][j] && q.count(i) && q.count(j)); for (int k = 0; k < g.n; k++) if (q.count(k)) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) r[i][j] |= r[i][k] && r[k][j]; }
VE_ENTRY(cc_all) { int n = (int)ve_param("n", 4); G g = graph(n, ve_param("selfs", 0)); S nodes; for (int i = 0; i < n; i++) nodes.insert(i); std::function<S(int)> nb = [&](int i) { return g.nb(i); }; auto cc = extract_connected_components<int, S>(nb, nodes); comps(g, nodes, cc, g.reach); END; }
// only part of the nodes qualify; the three call forms agree
VE_ENTRY(cc_some) { int n = (int)ve_param("n", 4); G g = graph(n); S q; for (int i = 0; i < n; i++) if (pick("q", i, 0, 1)) q.insert(i); bool r[8][8]; close(g, q, r); std::function<S(int)> nb = [&](int i) { return g.nb(i); }; std::function<bool(int)> crit = [&](int i) { return q.count(i) > 0; }; int how = (int)ve_param("how", 0); std::vector<S> cc = how == 0 ? extract_connected_components<int, S>(nb, q) : extract_connected_components<int, S>(n, nb, crit); comps(g, q, cc, r); END; }
// links given in one direction only still join
VE_ENTRY(cc_oneway) { int n = (int)ve_param("n", 4); G g = graph(n); S nodes; for (int i = 0; i < n; i++) nodes.insert(i); unsigned char d[8][8]; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) d[i][j] = g.a[i][j] ? (unsigned char)pick("d", i * 8 + j, 0, 1) : 0; std::function<std::vector<int>(int)> nb = [&](int i) { std::vector<int> s; for (int j = 0; j < n; j++) if (g.a[i][j]) { bool fwd = i < j ? d[i][j] : !d[j][i]; if (fwd) s.push_back(j); } return s; }; auto cc = extract_connected_components<int, std::vector<int>>(nb, nodes); comps(g, nodes, cc, g.reach); END; }
// overlap of labelled components between two steps
VE_ENTRY(cc_track) { int n = (int)ve_param("n", 3); std::vector<S> c0(2), c1(2); for (int i = 0; i < n; i++) { int x = pick("x", i, 0, 2), y = pick("y", i, 0, 2); if (x < 2) c0[x].insert(i); if (y < 2) c1[y].insert(i); } auto r = track_connected_components(c0, c1); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { bool ov = false; for (int e : c0[i]) ov |= c1[j].count(e) > 0; VE_CHECK((r.count({i, j}) > 0) == ov, "linked exactly if they overlap"); } for (auto &p : r) VE_CHECK((p.first >= 0) & (p.first < 2) & (p.second >= 0) & (p.second < 2), "indices of components"); END; }
// raster labelling
VE_ENTRY(hk) { int w = (int)ve_param("w", 3), h = (int)ve_param("h", 2); ndarray<int> m({(size_t)w, (size_t)h}); int img[64], lab[64]; for (int i = 0; i < w * h; i++) { img[i] = pick("p", i, 0, 1); m[i] = img[i] ? ve_param("val", 1) : 0; lab[i] = i; }
  for (int it = 0; it < w * h; it++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int p = y * w + x; if (!img[p]) continue; if (x && img[p - 1]) { int k = std::min(lab[p], lab[p - 1]); lab[p] = lab[p - 1] = k; } if (y && img[p - w]) { int k = std::min(lab[p], lab[p - w]); lab[p] = lab[p - w] = k; } }
  int cls = 0; for (int i = 0; i < w * h; i++) cls += img[i] && lab[i] == i; int n = hoshen_kopelman_2d(m); VE_CHECK(n == cls, "number of components"); for (int i = 0; i < w * h; i++) { VE_CHECK((m[i] != 0) == (img[i] != 0), "background stays unlabelled, foreground is labelled"); if (img[i]) VE_CHECK((m[i] >= 1) & (m[i] <= n), "labels are 1..n"); for (int j = 0; j < i; j++) if (img[i] && img[j]) VE_CHECK((m[i] == m[j]) == (lab[i] == lab[j]), "equal labels exactly within a component"); } END; }
// ---- curves
VE_ENTRY(cv_split) { int n = (int)ve_param("n", 4); G g = graph(n, ve_param("selfs", 0)); S comp; for (int i = 0; i < n; i++) if (g.reach[0][i]) comp.insert(i); if ((int)comp.size() != n) { END; return; } std::function<S(int)> nb = [&](int i) { S s = g.nb(i); if (ve_param("outside", 0)) { s.insert(100 + i); s.insert(200); } return s; }; auto lc = connected_component_to_linear_components<int>(comp, nb);
  int deg[8]; bool branch = false; int ends = 0; for (int i = 0; i < n; i++) { deg[i] = 0; for (int j = 0; j < n; j++) deg[i] += i != j && g.a[i][j]; branch |= deg[i] > 2; ends += deg[i] < 2; } int used[8] = {0}; for (auto &c : lc) { VE_CHECK(!c.empty(), "pieces are not empty"); for (size_t k = 0; k < c.size(); k++) { VE_CHECK((c[k] >= 0) & (c[k] < n), "pieces hold nodes of the component"); used[c[k]]++; VE_CHECK(deg[c[k]] <= 2, "branching nodes are left out"); if (k) VE_CHECK(g.a[c[k]][c[k - 1]] != 0, "consecutive nodes are neighbours"); } }
  for (int i = 0; i < n; i++) VE_CHECK(used[i] == (deg[i] <= 2 ? 1 : 0), "every node without branching appears exactly once"); if (!branch) { VE_CHECK(lc.size() == 1, "a branch-free component is a single piece"); VE_CHECK(is_loop<int>(lc[0], nb) == ((n > 2) & (ends == 0)), "flagged as loop exactly if it is a cycle"); } else for (auto &c : lc) { bool cyc = c.size() > 2; for (int x : c) { int d = 0; for (int y : c) d += x != y && g.a[x][y]; cyc &= d == 2; } VE_CHECK(is_loop<int>(c, nb) == cyc, "loop flag of a piece"); } END; }
// longer branch-free components: path or cycle with any labelling
VE_ENTRY(cv_perm) { int n = (int)ve_param("n", 5); std::vector<int> left, ord; for (int i = 0; i < n; i++) left.push_back(i * 3 - 4); for (int i = 0; i < n; i++) { int k = pick("o", i, 0, (int)left.size() - 1); ord.push_back(left[k]); left.erase(left.begin() + k); } bool cyc = pick("cyc", 0, 0, 1); S comp(ord.begin(), ord.end()); std::map<int, S> nbs; for (int i = 0; i < n; i++) { if (i + 1 < n || (cyc && n > 2)) { int a = ord[i], b = ord[(i + 1) % n]; nbs[a].insert(b); nbs[b].insert(a); } } std::function<S(int)> nb = [&](int i) { return nbs[i]; }; auto lc = connected_component_to_linear_components<int>(comp, nb); VE_CHECK(lc.size() == 1, "a branch-free component is a single piece"); auto &c = lc[0]; VE_CHECK(c.size() == (size_t)n, "every node appears"); S seen(c.begin(), c.end()); VE_CHECK(seen == comp, "each once"); for (size_t k = 1; k < c.size(); k++) VE_CHECK(nbs[c[k]].count(c[k - 1]) > 0, "consecutive nodes are neighbours"); VE_CHECK(is_loop<int>(c, nb) == (cyc && n > 2), "loop flag"); END; }
VE_ENTRY(cv_empty) { std::function<S(int)> nb = [](int) { return S(); }; VE_CHECK(connected_component_to_linear_components<int>(S(), nb).empty(), "nothing from nothing"); auto l = connected_component_to_linear_components<int>(S{7}, nb); VE_CHECK((l.size() == 1) & (l[0].size() == 1), "an isolated node is a piece"); VE_CHECK(l[0][0] == 7, "of its own"); VE_CHECK(!is_loop<int>(l[0], nb) & !is_loop<int>({}, nb), "and no loop"); END; }
// ---- shortest paths, breadth-first search
VE_ENTRY(sp) { int n = (int)ve_param("n", 4); G g = graph(n); int src = 0, dst = (int)ve_param("dst", n - 1); bool inc = ve_param("any", 0); if (!g.reach[src][dst] && !inc) { END; return; } double w[8][8]; bool sym = ve_param("directed", 0) == 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g.a[i][j]) { w[i][j] = sym && j < i ? w[j][i] : ve_sym_real("w", i * 8 + j); VE_ASSUME((w[i][j] >= 0) & (w[i][j] <= 1000)); }
  auto p = dijkstra<int, double>(src, dst, [&](int i) { return g.nb(i); }, [&](int i, int j) { return w[i][j]; }); if (!g.reach[src][dst]) { VE_CHECK((p.size() <= 1), "no path to an unreachable node"); END; return; }
  VE_CHECK(!p.empty(), "a path is found"); VE_CHECK((p.front() == src) & (p.back() == dst), "from source to destination"); double len = 0; for (size_t k = 1; k < p.size(); k++) { VE_CHECK(g.a[p[k - 1]][p[k]] != 0, "the path follows links"); len += w[p[k - 1]][p[k]]; } VE_CHECK(p.size() <= (size_t)n, "no node twice");
  // compare with every simple path
  std::vector<std::vector<int>> st = {{src}}; int ok = 1; while (!st.empty()) { auto q = st.back(); st.pop_back(); if (q.back() == dst) { double l = 0; for (size_t k = 1; k < q.size(); k++) l += w[q[k - 1]][q[k]]; ok &= ve_le(len, l); continue; } for (int j = 0; j < n; j++) if (g.a[q.back()][j] && std::find(q.begin(), q.end(), j) == q.end()) { auto r = q; r.push_back(j); st.push_back(r); } } VE_CHECK(ok, "no path is shorter"); END; }
VE_ENTRY(bfs_all) { int n = (int)ve_param("n", 4); G g = graph(n); S q; for (int i = 0; i < n; i++) if (pick("q", i, 0, 1)) q.insert(i); bool r[8][8]; close(g, q, r); std::vector<int> order; bfs<int, S>(0, [&](int i) { return g.nb(i); }, [&](int i) { order.push_back(i); }, [&](int i) { return q.count(i) > 0; }); S seen(order.begin(), order.end()); VE_CHECK(seen.size() == order.size(), "every node at most once"); int dist[8]; for (int i = 0; i < n; i++) dist[i] = 99; dist[0] = 0; for (int it = 0; it < n; it++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g.a[i][j] && q.count(i) && q.count(j)) dist[j] = std::min(dist[j], dist[i] + 1); for (int i = 0; i < n; i++) VE_CHECK((seen.count(i) > 0) == (q.count(0) > 0 && q.count(i) > 0 && r[0][i]), "visited exactly if reachable"); for (size_t k = 1; k < order.size(); k++) VE_CHECK(dist[order[k - 1]] <= dist[order[k]], "in order of distance"); END; }
