// P31 conversion and serialization, P32 trajectory editing, P33 curve collections
#include "ve.h"
#include <map>
#include <set>
#include <list>
#include <vector>
#include <cassert>
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include <ftk/features/feature_point.hh>
#include <ftk/features/feature_curve.hh>
#include <ftk/features/feature_curve_set.hh>
#include <ftk/utils/serialization.hh>
using namespace ftk;
#define END ve_reach("end")
typedef feature_point_t P; typedef feature_curve_t C; typedef feature_curve_set_t CS;
static int pick(const char *n, int i, int lo, int hi) { return (int)ve_concretize(ve_sym_int(n, i, lo, hi)); }
static double bits(const char *n, int i) { uint64_t b = ve_sym_bv(n, i, 64); double d; memcpy(&d, &b, 8); return d; }
static bool eqb(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
// a point with arbitrary bit patterns (mode fp)
static P bitpoint(int b) { P p; for (int k = 0; k < 3; k++) p.x[k] = bits("x", b * 100 + k), p.v[k] = bits("v", b * 100 + k); p.t = bits("t", b * 100); for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) p.scalar[k] = bits("s", b * 100 + k); p.timestep = (int)ve_sym_bv("ts", b, 32); p.type = (unsigned)ve_sym_bv("ty", b, 32); p.ordinal = ve_sym_bv("or", b, 1) != 0; p.tag = ve_sym_bv("tag", b, 64); p.id = ve_sym_bv("id", b, 64); return p; }
static bool eqgeo(const P &p, const P &q) { bool e = true; for (int k = 0; k < 3; k++) e &= eqb(p.x[k], q.x[k]); e &= eqb(p.t, q.t); for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) e &= eqb(p.scalar[k], q.scalar[k]); return e & (p.type == q.type) & (p.tag == q.tag); }
static bool eqall(const P &p, const P &q) { bool e = eqgeo(p, q); for (int k = 0; k < 3; k++) e &= eqb(p.v[k], q.v[k]); return e & (p.timestep == q.timestep) & (p.ordinal == q.ordinal) & (p.id == q.id); }
VE_ENTRY(fp_copy) { P p = bitpoint(0), q(p), r; r = p; VE_CHECK(eqall(p, q), "copy"); VE_CHECK(eqall(p, r), "assignment"); for (int k = 0; k < 3; k++) VE_CHECK(eqb(p[k], p.x[k]), "coordinates by index"); END; }
VE_ENTRY(fp_lite) { P p = bitpoint(0); auto l = p.to_lite(); bool e = true; for (int k = 0; k < 3; k++) e &= eqb(l.x[k], p.x[k]); e &= eqb(l.t, p.t) & (l.type == p.type) & (l.tag == p.tag); for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) e &= eqb(l.scalar[k], p.scalar[k]); VE_CHECK(e, "compact form"); P q(l); VE_CHECK(eqgeo(p, q), "position, time, scalars, type and tag survive the compact form"); END; }
VE_ENTRY(fp_ser) { P p = bitpoint(0), q, r; diy::MemoryBuffer bb; diy::save(bb, p); P p2 = bitpoint(1); diy::save(bb, p2); bb.reset(); diy::load(bb, q); diy::load(bb, r); VE_CHECK(eqall(p, q), "byte buffer round trip"); VE_CHECK(eqall(p2, r), "second point"); VE_CHECK(bb.position == bb.size(), "everything is consumed"); std::vector<P> v = {p, p2}, w; std::string s; diy::serializeToString(v, s); diy::unserializeFromString(s, w); VE_CHECK(w.size() == 2, "number of points"); VE_CHECK(eqall(w[0], p) & eqall(w[1], p2), "vector of points round trip"); END; }
VE_ENTRY(fp_json) { P p = bitpoint(0), q; json j = p; q = j.get<P>(); VE_CHECK(eqall(p, q), "JSON object round trip"); END; }
static C bitcurve(int n, int b) { C c; for (int i = 0; i < n; i++) c.push_back(bitpoint(b + i)); c.id = (int)ve_sym_bv("cid", b, 32); c.complete = ve_sym_bv("cc", b, 1) != 0; c.loop = ve_sym_bv("cl", b, 1) != 0; for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) c.max[k] = bits("max", b * 10 + k), c.min[k] = bits("min", b * 10 + k), c.persistence[k] = bits("per", b * 10 + k); for (int k = 0; k < 3; k++) c.bbmin[k] = bits("bl", b * 10 + k), c.bbmax[k] = bits("bh", b * 10 + k); c.tmin = bits("t0", b); c.tmax = bits("t1", b); c.vmmin = bits("v0", b); c.vmmax = bits("v1", b); c.consistent_type = (unsigned)ve_sym_bv("ct", b, 32); return c; }
static void eqcurve(const C &a, const C &b, bool ids = true) { VE_CHECK(a.size() == b.size(), "number of points"); for (size_t i = 0; i < a.size(); i++) VE_CHECK(ids ? eqall(a[i], b[i]) : eqgeo(a[i], b[i]), "points in order"); VE_CHECK((a.id == b.id) | !ids, "curve id"); VE_CHECK(a.complete == b.complete & a.loop == b.loop, "flags"); bool e = true; for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) e &= eqb(a.max[k], b.max[k]) & eqb(a.min[k], b.min[k]) & eqb(a.persistence[k], b.persistence[k]); for (int k = 0; k < 3; k++) e &= eqb(a.bbmin[k], b.bbmin[k]) & eqb(a.bbmax[k], b.bbmax[k]); VE_CHECK(e & eqb(a.tmin, b.tmin) & eqb(a.tmax, b.tmax) & eqb(a.vmmin, b.vmmin) & eqb(a.vmmax, b.vmmax), "extrema"); VE_CHECK(a.consistent_type == b.consistent_type, "type"); }
VE_ENTRY(fc_copy) { C c = bitcurve((int)ve_param("n", 2), 0), d(c), e; e = bitcurve(1, 5); e = c; eqcurve(c, d); eqcurve(c, e); C f; f.copy_info(c); VE_CHECK(f.id == c.id & f.complete == c.complete & f.loop == c.loop, "copied information"); END; }
VE_ENTRY(fc_ser) { int n = (int)ve_param("n", 2); C c = bitcurve(n, 0), d; std::string s; diy::serializeToString(c, s); diy::unserializeFromString(s, d); eqcurve(c, d); std::vector<C> v = {c, bitcurve(1, 5)}, w; diy::serializeToString(v, s); diy::unserializeFromString(s, w); VE_CHECK(w.size() == 2, "number of curves"); eqcurve(w[0], v[0]); eqcurve(w[1], v[1]); END; }
VE_ENTRY(fc_json) { C c = bitcurve((int)ve_param("n", 1), 0), d; json j = c; j.get_to(d); eqcurve(c, d); END; }
VE_ENTRY(cs_ser) { CS s, t; int n = (int)ve_param("n", 2); int lab[4]; for (int i = 0; i < n; i++) { lab[i] = pick("lab", i, -1, 2); C c = bitcurve(1 + i % 2, i * 5); s.add(c, lab[i]); } diy::MemoryBuffer bb; diy::save(bb, s); bb.reset(); diy::load(bb, t); VE_CHECK(t.size() == s.size(), "number of curves"); auto a = s.begin(), b = t.begin(); for (; a != s.end() && b != t.end(); ++a, ++b) { VE_CHECK(a->first == b->first, "labels in order"); eqcurve(a->second, b->second); } VE_CHECK(bb.position == bb.size(), "everything is consumed"); auto l = s.to_list(); VE_CHECK(l.size() == s.size(), "list of curves"); CS u; u.from_list(l); VE_CHECK(u.size() == s.size(), "back from the list"); auto d = u.begin(); for (a = s.begin(); a != s.end(); ++a, ++d) eqcurve(a->second, d->second); END; }
// ---- editing; every point carries its index as tag
static C curve(int n, int ntypes, bool ords = false, bool vals = false) { C c; c.id = 7; for (int i = 0; i < n; i++) { P p; p.tag = 100 + i; p.id = 7; p.type = ntypes > 1 ? (unsigned)ve_sym_int("type", i, 0, ntypes - 1) : 1; p.timestep = i; p.t = i; if (ords) p.ordinal = ve_sym_int("ord", i, 0, 1) != 0; if (vals) { p.t = ve_sym_real("t", i); VE_ASSUME((p.t >= -1000) & (p.t <= 1000)); for (int k = 0; k < 3; k++) { p.x[k] = ve_sym_real("x", i * 3 + k); VE_ASSUME((p.x[k] >= -1000) & (p.x[k] <= 1000)); } for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) { p.scalar[k] = ve_sym_real("s", i * 8 + k); VE_ASSUME((p.scalar[k] >= -1000) & (p.scalar[k] <= 1000)); } } c.push_back(p); } return c; }
static bool eqr(const P &p, const P &q) { bool e = p.t == q.t; for (int k = 0; k < 3; k++) e &= (p.x[k] == q.x[k]) & (p.v[k] == q.v[k]); for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) e &= p.scalar[k] == q.scalar[k]; return e & (p.type == q.type) & (p.timestep == q.timestep) & (p.ordinal == q.ordinal) & (p.tag == q.tag); }
VE_ENTRY(ed_split) { int n = (int)ve_param("n", 4); C c = curve(n, 3); c.relabel(9); for (auto &p : c) VE_CHECK(p.id == 9, "relabelling reaches every point"); VE_CHECK(c.id == 9, "and the curve"); auto r = c.split(); size_t at = 0; for (size_t k = 0; k < r.size(); k++) { VE_CHECK(!r[k].empty(), "pieces are not empty"); for (size_t i = 0; i < r[k].size(); i++, at++) { VE_CHECK(at < (size_t)n, "no extra points"); if (at >= (size_t)n) return; VE_CHECK(eqr(r[k][i], c[at]), "pieces are consecutive runs of the original"); VE_CHECK(r[k][i].type == r[k][0].type, "a piece has a single type"); VE_CHECK(r[k][i].id == 9, "id kept"); } VE_CHECK(r[k].consistent_type == r[k][0].type, "its consistent type"); if (k) VE_CHECK(r[k][0].type != r[k - 1][0].type, "pieces are maximal"); VE_CHECK((r[k].tmin == r[k].front().t) & (r[k].tmax == r[k].back().t), "its time span"); } VE_CHECK(at == (size_t)n, "every point appears"); END; }
VE_ENTRY(ed_rotate) { int n = (int)ve_param("n", 4); C c = curve(n, 3), o; c.loop = pick("loop", 0, 0, 1); o = c; c.rotate(); VE_CHECK(c.size() == (size_t)n, "size"); int s = (int)c[0].tag - 100; VE_CHECK((s >= 0) & (s < n), "a point of the original"); s = (int)ve_concretize(s); bool cyc = true, allsame = true; for (int i = 0; i < n; i++) { cyc &= eqr(c[i], o[(s + i) % n]); allsame &= o[i].type == o[0].type; } VE_CHECK(cyc, "rotation is a cyclic shift"); if (!c.loop) VE_CHECK(s == 0, "an open curve stays"); else VE_CHECK((c.front().type != c.back().type) | allsame | n == 1, "the ends differ in type unless the type is consistent"); END; }
VE_ENTRY(ed_reorder) { int n = (int)ve_param("n", 3); C c = curve(n, 1, false, true), o; for (int i = 0; i < n; i++) c[i].timestep = ve_int("ts", i, -5, 5); c.loop = pick("loop", 0, 0, 1); o = c; c.reorder(); bool f = true, b = true; for (int i = 0; i < n; i++) { f &= eqr(c[i], o[i]); b &= eqr(c[i], o[n - 1 - i]); } VE_CHECK(f | b, "reordering only reverses"); if (c.loop) VE_CHECK(f, "loops stay"); else VE_CHECK((c.front().timestep < c.back().timestep) | ((c.front().timestep == c.back().timestep) & (c.front().t <= c.back().t)), "ascending order of the ends"); END; }
VE_ENTRY(ed_adjust) { int n = (int)ve_param("n", 4); C c = curve(n, 1, true, true), o; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) VE_ASSUME(!c[i].ordinal | !c[j].ordinal | c[i].t <= c[j].t); o = c; c.adjust_time(); bool mono = true; for (int i = 0; i < n; i++) { if (i) mono &= c[i - 1].t <= c[i].t; VE_CHECK(!c[i].ordinal | c[i].t == o[i].t, "time of ordinal points is kept"); P p = c[i]; p.t = o[i].t; VE_CHECK(eqr(p, o[i]), "nothing but the time changes"); } VE_CHECK(mono, "time increases monotonously"); bool was = true; for (int i = 1; i < n; i++) was &= o[i - 1].t <= o[i].t; bool same = true; for (int i = 0; i < n; i++) same &= c[i].t == o[i].t; VE_CHECK(!was | same, "a monotone curve is left alone"); END; }
VE_ENTRY(ed_smooth_ord) { int n = (int)ve_param("n", 5), h = (int)ve_param("half", 1); C c = curve(n, 3, false), o; for (int i = 0; i < n; i++) c[i].ordinal = pick("ord", i, 0, 1); o = c; c.smooth_ordinal_types(h); std::vector<int> ord; for (int i = 0; i < n; i++) if (o[i].ordinal) ord.push_back(i); VE_CHECK(c.to_ordinals() == ord, "list of ordinal points"); for (int i = 0; i < n; i++) { P p = c[i]; p.type = o[i].type; VE_CHECK(eqr(p, o[i]), "nothing but the type changes"); } for (int i = 0; i < n; i++) { int k = -1; for (size_t q = 0; q < ord.size(); q++) if (ord[q] == i) k = (int)q; unsigned want = o[i].type; if (k >= h && k + h < (int)ord.size() && (int)ord.size() >= 2 * h + 1) { unsigned t = o[ord[k - h]].type; bool all = true; for (int j = k - h; j <= k + h; j++) if (j != k) all &= o[ord[j]].type == t; if (all & (t != 0)) want = t; } VE_CHECK(c[i].type == want, "an ordinal point takes the type all its neighbours agree on"); } END; }
VE_ENTRY(ed_smooth_int) { int n = (int)ve_param("n", 4); C c = curve(n, 3), o; for (int i = 0; i < n; i++) c[i].ordinal = pick("ord", i, 0, 1); o = c; c.smooth_interval_types(); std::vector<int> ord = o.to_ordinals(); for (int i = 0; i < n; i++) { P p = c[i]; p.type = o[i].type; VE_CHECK(eqr(p, o[i]), "nothing but the type changes"); VE_CHECK(!o[i].ordinal | c[i].type == o[i].type, "types of ordinal points are kept"); } if (ord.empty()) { for (int i = 0; i < n; i++) VE_CHECK(c[i].type == o[i].type, "nothing to smooth"); END; return; } for (int i = 0; i < ord[0]; i++) VE_CHECK(c[i].type == o[ord[0]].type, "front takes the type of the first ordinal"); for (int i = ord.back(); i < n; i++) VE_CHECK(c[i].type == o[ord.back()].type, "back takes the type of the last ordinal"); for (size_t k = 0; k + 1 < ord.size(); k++) { int changes = 0; for (int i = ord[k]; i < ord[k + 1]; i++) changes += c[i].type != c[i + 1].type; VE_CHECK(changes == (o[ord[k]].type != o[ord[k + 1]].type), "at most one change of type between two ordinals"); } END; }
VE_ENTRY(ed_discard) { int n = (int)ve_param("n", 4); C c = curve(n, 3, true, false), o = c; o.loop = c.loop = pick("loop", 0, 0, 1); c.complete = o.complete = true; int how = (int)ve_param("how", 0); bool keep[8]; for (int i = 0; i < n; i++) keep[i] = how == 0 ? (bool)c[i].ordinal : how == 1 ? (c[i].type != 0) & (c[i].type != 1) : ve_sym_int("keep", i, 0, 1) != 0; if (how == 0) c.discard_interval_points(); else if (how == 1) c.discard_degenerate_points(); else { auto sel = o.select([&](const P &p) { return keep[p.tag - 100]; }); c.discard([&](const P &p) { return !keep[p.tag - 100]; }); size_t k = 0; for (int i = 0; i < n; i++) if (keep[i]) { VE_CHECK(k < sel.size(), "selected"); if (k < sel.size()) VE_CHECK(sel[k] == i, "selection lists the matching points in order"); k++; } VE_CHECK(k == sel.size(), "and no others"); } size_t k = 0; for (int i = 0; i < n; i++) if (keep[i]) { VE_CHECK(k < c.size(), "kept"); if (k >= c.size()) return; VE_CHECK(eqr(c[k], o[i]), "kept points stay in order"); k++; } VE_CHECK(k == c.size(), "discarding keeps exactly the others"); VE_CHECK((c.id == o.id) & (c.loop == o.loop) & (c.complete == o.complete), "id and flags are kept"); END; }
VE_ENTRY(ed_stats) { int n = (int)ve_param("n", 3); C c = curve(n, 3, false, true); for (int i = 0; i < n; i++) { c[i].v[0] = ve_sym_real("vx", i); VE_ASSUME((c[i].v[0] >= -1000) & (c[i].v[0] <= 1000)); } c.update_statistics(); auto ext = [&](double lo, double hi, std::function<double(const P &)> f, const char *m) { bool in = true, isl = false, ish = false; for (auto &p : c) { double v = f(p); in &= ve_le(lo, v) & ve_le(v, hi); isl |= ve_near(v, lo, 1e-3); ish |= ve_near(v, hi, 1e-3); } VE_CHECK(in & isl & ish, m); }; ext(c.tmin, c.tmax, [](const P &p) { return p.t; }, "time span"); for (int k = 0; k < 3; k++) ext(c.bbmin[k], c.bbmax[k], [k](const P &p) { return p.x[k]; }, "bounding box"); for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) { ext(c.min[k], c.max[k], [k](const P &p) { return p.scalar[k]; }, "scalar range"); VE_CHECK(c.persistence[k] == c.max[k] - c.min[k], "persistence"); } ext(c.vmmin, c.vmmax, [](const P &p) { return std::fabs(p.v[0]); }, "speed range"); bool same = true; for (auto &p : c) same &= p.type == c[0].type; VE_CHECK(c.consistent_type == (same ? c[0].type : 0u), "consistent type"); END; }
VE_ENTRY(ed_intercept) { int n = (int)ve_param("n", 3); C c = curve(n, 1, false, true); for (int i = 1; i < n; i++) VE_ASSUME(c[i - 1].t <= c[i].t); int t0 = ve_int("t0", 0, -3, 3), t1 = ve_int("t1", 0, -3, 3); C r = c.intercept(t0, t1); size_t k = 0; for (int i = 0; i < n; i++) { bool in = (c[i].t >= t0) & (c[i].t <= t1); if (in) { VE_CHECK(k < r.size(), "kept"); if (k >= r.size()) return; VE_CHECK(eqr(r[k], c[i]), "points of the interval in order"); k++; } } VE_CHECK(k == r.size(), "exactly the points of the interval"); if (k) VE_CHECK((r.id == c.id) & (r[0].id == (unsigned long long)c.id), "id kept"); END; }
VE_ENTRY(ed_unwrap) { int n = (int)ve_param("n", 3); double per = ve_sym_real("per", 0); VE_ASSUME((per > 0) & (per <= 1000)); C c = curve(n, 1, false, true), o; for (int i = 1; i < n; i++) { double d = c[i].x[2] - c[i - 1].x[2]; VE_ASSUME((2 * d < 3 * per) & (2 * d > -3 * per)); } o = c; c.unwrap<2>(per); bool in = true, isl = n == 0, ish = n == 0; for (int i = 0; i < n; i++) { if (i) { double d = c[i].x[2] - c[i - 1].x[2], e = o[i].x[2] - o[i - 1].x[2]; VE_CHECK(ve_le(2 * d, per) & ve_le(-per, 2 * d), "consecutive points are at most half a period apart"); VE_CHECK(ve_near(d, e, 1e3) | ve_near(d, e + per, 1e3) | ve_near(d, e - per, 1e3), "shifted by whole periods"); } else VE_CHECK(c[0].x[2] == o[0].x[2], "the first point stays"); P p = c[i]; p.x[2] = o[i].x[2]; VE_CHECK(eqr(p, o[i]), "only that coordinate changes"); in &= (c.bbmin[2] <= c[i].x[2]) & (c[i].x[2] <= c.bbmax[2]); isl |= c.bbmin[2] == c[i].x[2]; ish |= c.bbmax[2] == c[i].x[2]; } VE_CHECK(in & isl & ish, "bounding box of the unwrapped coordinate"); END; }
VE_ENTRY(ed_vel) { int n = (int)ve_param("n", 4); C c = curve(n, 1, false, true), o = c; c.derive_velocity(); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { double w = n < 2 ? 0 : i == 0 ? o[1].x[k] - o[0].x[k] : i == n - 1 ? o[i].x[k] - o[i - 1].x[k] : (o[i + 1].x[k] - o[i - 1].x[k]) / 2; VE_CHECK(ve_near(c[i].v[k], w, 1e3), "velocity is the difference quotient of the positions"); VE_CHECK(c[i].x[k] == o[i].x[k], "positions stay"); } END; }
VE_ENTRY(ed_geo) { int n = (int)ve_param("n", 4); C c = curve(n, 1, false, true); auto r = c.split_geo(); size_t at = 0; for (size_t k = 0; k < r.size(); k++) { VE_CHECK(!r[k].empty(), "pieces are not empty"); VE_CHECK(r[k].id == c.id, "id kept"); for (size_t i = 0; i < r[k].size(); i++, at++) { if (at >= (size_t)n) { ve_fail("extra points"); return; } VE_CHECK(eqr(r[k][i], c[at]), "consecutive runs"); if (at) { double d = std::fabs(c[at].x[0] - c[at - 1].x[0]); VE_CHECK((d > 180) == (i == 0), "cut exactly where the longitude jumps"); } } } VE_CHECK(at == (size_t)n, "every point appears"); END; }
// ---- collections
static C one(int id, int n, int t0) { C c; c.id = id; for (int i = 0; i < n; i++) { P p; p.tag = t0 + i; p.t = i; p.type = 1 + (unsigned)i % 2; p.id = 55; c.push_back(p); } c.update_statistics(); return c; }
static void consistent(const CS &s) { for (auto &kv : s) { VE_CHECK(kv.second.id == kv.first, "a curve carries the id it is stored under"); for (auto &p : kv.second) VE_CHECK(p.id == (unsigned long long)kv.first, "and so do its points"); } }
VE_ENTRY(cs_add) { CS s; int k = (int)ve_param("k", 3); std::map<int, std::vector<int>> want; int tot = 0; for (int i = 0; i < k; i++) { int op = pick("op", i, 0, 2); if (op == 0) { int id = s.add(one(99, 1 + i, 10 * i)); VE_CHECK(!want.count(id), "the new id is unused"); want[id].push_back(10 * i); tot++; } else if (op == 1) { int l = pick("label", i, -2, 2); s.add(one(99, 1, 10 * i), l); want[l].push_back(10 * i); tot++; } else { auto ids = s.add(std::vector<C>{one(1, 1, 10 * i), one(1, 2, 10 * i + 5)}); VE_CHECK(ids.size() == 2, "an id per curve"); for (int q = 0; q < 2; q++) { VE_CHECK(!want.count(ids[q]), "the new id is unused"); want[ids[q]].push_back(10 * i + 5 * q); tot++; } } } VE_CHECK((int)s.size() == tot, "number of curves"); consistent(s); for (auto &kv : want) { VE_CHECK(s.count(kv.first) == kv.second.size(), "curves under an id"); size_t q = 0; auto r = s.equal_range(kv.first); for (auto it = r.first; it != r.second; ++it, q++) VE_CHECK((int)it->second[0].tag == kv.second[q], "in order of insertion"); } int seen = 0; s.foreach([&](int id, const C &c) { seen++; }); VE_CHECK(seen == tot, "visiting every curve"); END; }
VE_ENTRY(cs_filter) { CS s; int n = (int)ve_param("n", 4); bool keep[8]; for (int i = 0; i < n; i++) { s.add(one(0, 1 + i % 2, 10 * i), pick("label", i, 0, 1)); keep[i] = pick("keep", i, 0, 1); } s.filter([&](const C &c) { return keep[c[0].tag / 10]; }); size_t k = 0; for (int i = 0; i < n; i++) k += keep[i]; VE_CHECK(s.size() == k, "filtering keeps exactly the matching curves"); for (auto &kv : s) VE_CHECK(keep[kv.second[0].tag / 10], "and no others"); consistent(s); END; }
VE_ENTRY(cs_split) { CS s; int n = (int)ve_param("n", 2), len = (int)ve_param("len", 3); std::vector<int> lab, typ; for (int i = 0; i < n; i++) { C c; c.id = 0; for (int j = 0; j < len; j++) { P p; p.tag = i * len + j; p.t = j; p.type = (unsigned)pick("type", i * len + j, 1, 2); typ.push_back(p.type); c.push_back(p); } c.update_statistics(); lab.push_back(pick("label", i, 0, 2)); s.add(c, lab[i]); } s.split_all(); std::vector<int> cnt(n * len, 0); for (auto &kv : s) { VE_CHECK(!kv.second.empty(), "no empty curve"); VE_CHECK(kv.second.consistent_type != 0, "every curve has a single type"); for (auto &p : kv.second) { VE_CHECK(kv.first == lab[p.tag / len], "pieces keep the id of their curve"); cnt[p.tag]++; VE_CHECK((p.type == kv.second.consistent_type) & ((int)p.type == typ[p.tag]), "type of the piece"); } } for (int x : cnt) VE_CHECK(x == 1, "every point appears exactly once"); consistent(s); END; }
VE_ENTRY(cs_intercept) { CS s; int n = (int)ve_param("n", 2); for (int i = 0; i < n; i++) { C c = one(0, 3, 10 * i); for (int j = 0; j < 3; j++) { c[j].t = ve_sym_real("t", i * 3 + j); VE_ASSUME((c[j].t >= -5) & (c[j].t <= 5)); if (j) VE_ASSUME(c[j - 1].t <= c[j].t); } s.add(c, i * 2); } int t0 = pick("t0", 0, -1, 1), t1 = pick("t1", 0, 0, 2); CS r = s.intercept(t0, t1); consistent(r); for (auto &kv : s) { size_t k = 0; for (auto &p : kv.second) k += (p.t >= t0) & (p.t <= t1); k = (size_t)ve_concretize((int64_t)k); VE_CHECK(r.count(kv.first) == (k > 0), "a curve remains exactly if it meets the interval"); if (k > 0 && r.count(kv.first)) VE_CHECK(r.find(kv.first)->second.size() == k, "with its points of the interval"); } END; }
