// P34 tracking graphs
#include "ve.h"
#include <map>
#include <set>
#include <fstream>
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include <ftk/tracking_graph/tracking_graph.hh>
using namespace ftk;
#define END ve_reach("end")
typedef tracking_graph<> TG; typedef std::pair<size_t, size_t> N;
static int pick(const char *n, int i, int lo, int hi) { return (int)ve_concretize(ve_sym_int(n, i, lo, hi)); }
VE_ENTRY(tg_events) { int T = (int)ve_param("T", 3), L = (int)ve_param("L", 2), off = (int)ve_param("t0", 4), step = (int)ve_param("step", 1); bool rev = ve_param("rev", 0), skip = ve_param("skip", 0); TG g; bool ex[4][4], ln[4][4][4]; auto tm = [&](int t) { return (size_t)(off + t * step); }; auto lb = [](int l) { return (size_t)(l * 3 + 1); };
  for (int q = 0; q < T * L; q++) { int k = rev ? T * L - 1 - q : q, t = k / L, l = k % L; ex[t][l] = ve_param("allnodes", 1) ? true : pick("node", k, 0, 1); if (ex[t][l]) g.add_node(tm(t), lb(l)); }
  for (int q = 0; q < (T - 1) * L * L; q++) { int k = rev ? (T - 1) * L * L - 1 - q : q, t = k / (L * L), a = k / L % L, b = k % L; ln[t][a][b] = pick("link", k, 0, 1); if (ln[t][a][b]) { ex[t][a] = ex[t + 1][b] = true; g.add_edge(tm(t), lb(a), tm(t + 1), lb(b)); if (rev) g.add_edge(tm(t), lb(a), tm(t + 1), lb(b)); } }
  int have[4]; std::vector<size_t> want; for (int t = 0; t < T; t++) { have[t] = 0; for (int l = 0; l < L; l++) { have[t] += ex[t][l]; VE_CHECK(g.has_node(tm(t), lb(l)) == ex[t][l], "a node is known exactly if it was added or linked"); } if (have[t]) want.push_back(tm(t)); } for (int t = 0; t + 1 < T; t++) for (int a = 0; a < L; a++) for (int b = 0; b < L; b++) { VE_CHECK(g.has_edge(tm(t), lb(a), tm(t + 1), lb(b)) == ln[t][a][b], "a link is known exactly if it was added"); VE_CHECK(!g.has_edge(tm(t + 1), lb(b), tm(t), lb(a)), "links have a direction"); } VE_CHECK(g.get_timesteps() == want, "time steps in order");
  for (int t = 0; t < T; t++) if (!have[t]) { END; return; }
  g.detect_events(); auto ev = g.get_events();
  for (int t = 0; t + 1 < T; t++) { // components of the interval
    int c[8]; int n = 2 * L; for (int i = 0; i < n; i++) c[i] = i; for (int it = 0; it < n; it++) for (int a = 0; a < L; a++) for (int b = 0; b < L; b++) if (ln[t][a][b]) { int m = std::min(c[a], c[L + b]); c[a] = c[L + b] = m; } std::map<int, std::pair<std::set<size_t>, std::set<size_t>>> cc; for (int l = 0; l < L; l++) { if (ex[t][l]) cc[c[l]].first.insert(lb(l)); if (ex[t + 1][l]) cc[c[L + l]].second.insert(lb(l)); }
    size_t cnt = 0; for (auto &kv : cc) { auto &l = kv.second.first; auto &r = kv.second.second; if (l.size() == 1 && r.size() == 1) continue; cnt++; int found = 0; if (ev.count(tm(t))) for (auto &e : ev[tm(t)]) if (e.lhs == l && e.rhs == r) { found++; VE_CHECK((e.interval == std::pair<size_t, size_t>(tm(t), tm(t + 1))), "interval of the event"); int ty = e.type(), w = l.empty() ? (r.size() == 1 ? FTK_EVENT_BIRTH : -1) : r.empty() ? (l.size() == 1 ? FTK_EVENT_DEATH : -1) : (l.size() == 1 && r.size() == 2) ? FTK_EVENT_SPLIT : (l.size() == 2 && r.size() == 1) ? FTK_EVENT_MERGE : (l.size() == 2 && r.size() == 2) ? FTK_EVENT_RECOMBINATION : FTK_EVENT_COMPOUND; VE_CHECK(ty == w, "kind of event"); } VE_CHECK(found == 1, "every change is reported once"); } VE_CHECK((ev.count(tm(t)) ? ev[tm(t)].size() : 0) == cnt, "nothing else is reported"); }
  // global labels
  for (int t = 0; t < T; t++) for (int l = 0; l < L; l++) VE_CHECK(!g.has_global_label(tm(t), lb(l)), "no labels before labelling"); g.relabel(); if (ve_param("twice", 0)) g.relabel(); int c[16]; for (int i = 0; i < T * L; i++) c[i] = i; for (int it = 0; it < T * L; it++) for (int t = 0; t + 1 < T; t++) for (int a = 0; a < L; a++) for (int b = 0; b < L; b++) if (ln[t][a][b]) { int o = 0, i = 0; for (int k = 0; k < L; k++) o += ln[t][a][k], i += ln[t][k][b]; if (o == 1 && i == 1) { int m = std::min(c[t * L + a], c[(t + 1) * L + b]); c[t * L + a] = c[(t + 1) * L + b] = m; } }
  for (int i = 0; i < T * L; i++) { if (!ex[i / L][i % L]) { VE_CHECK(!g.has_global_label(tm(i / L), lb(i % L)), "unknown nodes have no label"); continue; } VE_CHECK(g.has_global_label(tm(i / L), lb(i % L)), "every node is labelled"); for (int j = 0; j < i; j++) if (ex[j / L][j % L]) VE_CHECK((g.get_global_label(tm(i / L), lb(i % L)) == g.get_global_label(tm(j / L), lb(j % L))) == (c[i] == c[j]), "equal global labels exactly along one-to-one links"); } END; }
