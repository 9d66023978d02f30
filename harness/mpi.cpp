// P39 distributed gathering and redistribution
#include "ve.h"
#include <map>
#include <set>
#include <mpi.h>
#include <ftk/config.hh>
#include <ftk/external/diy/mpi.hpp>
#include <ftk/utils/gather.hh>
#include <ftk/utils/redistribution.hh>
#include <ftk/utils/scatter.hh>
#include <ftk/utils/bcast.hh>
#define END ve_reach("end")
typedef diy::mpi::communicator C;
static int pick(const char *n, int i, int lo, int hi) { return (int)ve_concretize(ve_sym_int(n, i, lo, hi)); }
typedef std::map<int, long> M;
static const int keys[4] = {-7, 0, 3, 1 << 20};
// contents of all processes: which keys are there is chosen, the values are symbolic
static std::vector<M> contents(int np, int nk) { std::vector<M> v(np); for (int r = 0; r < np; r++) for (int k = 0; k < nk; k++) if (pick("has", r * nk + k, 0, 1)) v[r][keys[k]] = (long)ve_sym_bv("val", r * nk + k, 64); return v; }
static void check_union(const std::vector<M> &in, const M &out, int first) { std::set<int> ks; for (auto &m : in) for (auto &kv : m) ks.insert(kv.first); VE_CHECK(out.size() == ks.size(), "exactly the keys of all processes arrive"); for (int k : ks) { auto it = out.find(k); bool f = it != out.end(); VE_CHECK(f, "every key arrives"); if (!f) continue; bool some = false; for (auto &m : in) { auto j = m.find(k); if (j != m.end()) some |= j->second == it->second; } VE_CHECK(some, "values are those of a process that had the key"); if (first >= 0 && in[first].count(k)) VE_CHECK(it->second == in[first].find(k)->second, "what the root has is kept"); } }
VE_ENTRY(mp_gather) { int np = (int)ve_param("np", 3), root = (int)ve_param("root", 0), alias = (int)ve_param("alias", 0), nk = (int)ve_param("nk", 2); auto in = contents(np, nk); std::vector<M> out(np); mpiw::run(np, [&](int r) { C c; out[r] = alias ? in[r] : M{{99, 5}}; if (alias) diy::mpi::gather(c, out[r], out[r], root); else diy::mpi::gather(c, in[r], out[r], root); });
  for (int r = 0; r < np; r++) if (r == root) check_union(in, out[r], root); else VE_CHECK(out[r] == (alias ? in[r] : M{{99, 5}}), "other processes keep their data"); END; }
typedef std::map<int, std::vector<short>> MV;
VE_ENTRY(mp_merge) { int np = (int)ve_param("np", 2), root = (int)ve_param("root", 1), all = (int)ve_param("all", 0); std::vector<MV> in(np), out(np); for (int r = 0; r < np; r++) for (int k = 0; k < 2; k++) { int n = pick("n", r * 2 + k, 0, 2); for (int i = 0; i < n; i++) in[r][keys[k]].push_back((short)ve_sym_int("v", (r * 2 + k) * 2 + i, -32768, 32767)); } auto mg = [](const MV &a, MV &b) { for (auto &kv : a) { auto &d = b[kv.first]; d.insert(d.end(), kv.second.begin(), kv.second.end()); } };
  mpiw::run(np, [&](int r) { C c; out[r].clear(); if (all) diy::mpi::allgather<MV>(c, in[r], out[r], mg); else diy::mpi::gather<MV>(c, in[r], out[r], root, mg); });
  for (int r = 0; r < np; r++) if (all || r == root) { MV want; if (!all) want = in[root]; for (int q = 0; q < np; q++) if (all || q != root) mg(in[q], want); VE_CHECK(out[r].size() == want.size(), "keys of all processes"); for (auto &kv : want) { bool f = out[r].count(kv.first); VE_CHECK(f, "every key arrives"); if (f) VE_CHECK(out[r][kv.first] == kv.second, "the merger sees every contribution once"); } } END; }
VE_ENTRY(mp_set) { int np = (int)ve_param("np", 3), root = (int)ve_param("root", 0); typedef std::set<int> S; std::vector<S> in(np), out(np); S u; for (int r = 0; r < np; r++) for (int k = 0; k < 2; k++) if (pick("has", r * 2 + k, 0, 1)) { int v = keys[k] + (k ? 0 : pick("off", r, 0, 1)); in[r].insert(v); u.insert(v); } mpiw::run(np, [&](int r) { C c; out[r].clear(); diy::mpi::gather(c, in[r], out[r], root); }); for (int r = 0; r < np; r++) VE_CHECK(out[r] == (r == root ? u : S()), "the root has the union of the sets"); END; }
VE_ENTRY(mp_allgather) { int np = (int)ve_param("np", 3); auto in = contents(np, 2); std::vector<M> out(np); mpiw::run(np, [&](int r) { C c; out[r].clear(); diy::mpi::allgather(c, in[r], out[r]); }); for (int r = 0; r < np; r++) { check_union(in, out[r], -1); VE_CHECK(out[r] == out[0], "all processes get the same"); } END; }
typedef std::map<size_t, std::map<size_t, long>> MM;
VE_ENTRY(mp_redist) { int np = (int)ve_param("np", 2), nk = (int)ve_param("nk", 3); std::vector<MM> in(np), out(np); for (int r = 0; r < np; r++) for (int k = 0; k < nk; k++) { int w = pick("has", r * nk + k, 0, 2); size_t key = (size_t)(5 * k + 1); for (int j = 0; j < w; j++) in[r][key][(size_t)(ve_param("disjoint", 1) ? r * 10 + j : j)] = (long)ve_sym_bv("val", (r * nk + k) * 2 + j, 64); }
  mpiw::run(np, [&](int r) { C c; out[r].clear(); diy::mpi::redistribute(c, in[r], out[r]); });
  MM all; for (int r = 0; r < np; r++) for (auto &kv : in[r]) all[kv.first].insert(kv.second.begin(), kv.second.end());
  for (int r = 0; r < np; r++) { size_t cnt = 0; for (auto &kv : all) { bool mine = (int)(std::hash<size_t>{}(kv.first) % np) == r; bool got = out[r].count(kv.first); VE_CHECK(got == mine, "a key arrives exactly at the process it is assigned to"); cnt += mine; if (got & mine) { auto &o = out[r][kv.first]; VE_CHECK(o.size() == kv.second.size(), "all entries of the key arrive"); for (auto &e : kv.second) { bool f = o.count(e.first); VE_CHECK(f, "every entry arrives"); bool some = false; for (int q = 0; q < np; q++) { auto i = in[q].find(kv.first); if (i == in[q].end()) continue; auto j = i->second.find(e.first); if (j != i->second.end() && f) some |= j->second == o[e.first]; } if (f) VE_CHECK(some, "entries arrive unchanged"); } } } VE_CHECK(out[r].size() == cnt, "nothing else arrives"); } END; }
VE_ENTRY(mp_all2all) { int np = (int)ve_param("np", 3); std::vector<std::vector<M>> in(np, std::vector<M>(np)); for (int r = 0; r < np; r++) for (int q = 0; q < np; q++) { int n = pick("n", r * np + q, 0, 1); for (int i = 0; i < n; i++) in[r][q][r * 10 + i] = (long)ve_sym_bv("val", r * np + q, 64); } std::vector<M> out(np); mpiw::run(np, [&](int r) { C c; out[r].clear(); diy::mpi::all2all(c, in[r], out[r]); }); for (int q = 0; q < np; q++) { M want; for (int r = 0; r < np; r++) for (auto &kv : in[r][q]) want.insert(kv); VE_CHECK(out[q].size() == want.size(), "everything addressed to a process arrives"); for (auto &kv : want) { bool f = out[q].count(kv.first); VE_CHECK(f, "every entry arrives"); if (f) VE_CHECK(out[q][kv.first] == kv.second, "unchanged"); } } END; }
VE_ENTRY(mp_scatter) { int np = (int)ve_param("np", 3), root = (int)ve_param("root", 0); std::vector<std::vector<int>> in(np), out(np); for (int r = 0; r < np; r++) { int n = pick("n", r, 0, 2); for (int i = 0; i < n; i++) in[r].push_back((int)ve_sym_bv("v", r * 2 + i, 32)); } mpiw::run(np, [&](int r) { C c; out[r] = {4}; diy::mpi::scatterv(c, r == root ? in : std::vector<std::vector<int>>(np), out[r], root); }); for (int r = 0; r < np; r++) VE_CHECK(out[r] == in[r], "every process gets its part"); END; }
VE_ENTRY(mp_bcast) { int np = (int)ve_param("np", 3), root = (int)ve_param("root", 0); std::vector<int> in; int n = pick("n", 0, 0, 3); for (int i = 0; i < n; i++) in.push_back((int)ve_sym_bv("v", i, 32)); std::vector<std::vector<int>> out(np); mpiw::run(np, [&](int r) { C c; out[r] = r == root ? in : std::vector<int>{4, 5}; diy::mpi::bcastv(c, out[r], root); }); for (int r = 0; r < np; r++) VE_CHECK(out[r] == in, "every process has the data of the root"); END; }
