// P17 thread-safe union-find (one process)
#include "ve.h"
#include <set>
#include <map>
#include <thread>
#include <ftk/config.hh>
#include <ftk/external/diy/mpi.hpp>
#include <ftk/basic/duf.hh>
using namespace ftk;
#define END ve_reach("end")
static int pick(const char *n, int i, int lo, int hi) { return (int)ve_concretize(ve_sym_int(n, i, lo, hi)); }
static const int ids[8] = {12, -3, 40, 5, 0, 900, -77, 41};
static void chk(duf<int> &d, const int *l, int n, int touched) { int rep[8]; for (int i = 0; i < n; i++) { VE_CHECK(d.has(ids[i]) == ((touched >> i) & 1), "known exactly if united or queried"); } std::set<int> roots = d.get_roots(); for (int r : roots) { bool in = false; for (int i = 0; i < n; i++) in |= ids[i] == r; VE_CHECK(in, "representatives are elements"); } std::set<int> cls; for (int i = 0; i < n; i++) if ((touched >> i) & 1) cls.insert(l[i]); VE_CHECK(roots.size() == cls.size(), "one representative per set");
  for (int i = 0; i < n; i++) { rep[i] = d.find(ids[i]); VE_CHECK(d.find(rep[i]) == rep[i], "the representative represents itself"); for (int j = 0; j < n; j++) if (ids[j] == rep[i]) VE_CHECK(l[j] == l[i], "and belongs to the set"); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VE_CHECK((rep[i] == rep[j]) == (l[i] == l[j]), "same representative exactly if connected by unions"); VE_CHECK(d.size() == (size_t)n, "all elements are known now"); }
VE_ENTRY(duf_seq) { int n = (int)ve_param("n", 4), k = (int)ve_param("k", 3), touched = 0; duf<int> d; int l[8]; for (int i = 0; i < n; i++) l[i] = i; for (int s = 0; s < k; s++) { int a = pick("a", s, 0, n - 1), b = pick("b", s, 0, n - 1); d.unite(ids[a], ids[b]); int x = l[a], y = l[b]; for (int i = 0; i < n; i++) if (l[i] == y) l[i] = x; touched |= 1 << a | 1 << b; } if (ve_param("q", 0)) { int x = pick("q", 0, 0, n - 1); d.find(ids[x]); touched |= 1 << x; } d.sync(); chk(d, l, n, touched); END; }
// unions by two or three threads at once
VE_ENTRY(duf_par) { int n = (int)ve_param("n", 4), nt = (int)ve_param("nt", 2); duf<int> d; int l[8], touched = 0; for (int i = 0; i < n; i++) l[i] = i; int a[4], b[4]; for (int s = 0; s < nt; s++) { a[s] = pick("a", s, 0, n - 1); b[s] = pick("b", s, 0, n - 1); VE_ASSUME(a[s] < b[s] | ve_param("any", 0)); int x = l[a[s]], y = l[b[s]]; for (int i = 0; i < n; i++) if (l[i] == y) l[i] = x; touched |= 1 << a[s] | 1 << b[s]; } std::vector<std::thread> ts; for (int s = 0; s < nt; s++) ts.emplace_back([&d, &a, &b, s]() { d.unite(ids[a[s]], ids[b[s]]); }); for (auto &t : ts) t.join(); chk(d, l, n, touched); END; }
