// P38 critical point tracking on a regular 2D grid: the tracker is run as a whole
#include "ve.h"
#include <map>
#include <set>
#include <list>
#include <array>
#include <ftk/numeric/critical_point_type.hh>
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
using namespace ftk;
#define END ve_reach("end")
typedef long long L;
typedef simplicial_regular_mesh_element El;
struct Tr : public critical_point_tracker_2d_regular { Tr(diy::mpi::communicator c) : critical_point_tracker_2d_regular(c), tracker(c) { vector_field_resolution = 1. / 256; } simplicial_regular_mesh &mesh() { return m; } };
static int W, H, NT;
// vectors in units of 1/256; the field is a fixed layout except at chosen vertices
static L fld(int lay, int x, int y, int t, int c) { static const int tab[16] = {37, -61, 12, 90, -15, -83, 54, 28, -47, 71, -9, -66, 33, 81, -22, -38}; switch (lay) {
  case 0: return c == 0 ? 512 * x - 300 - 90 * t + 31 * y : 512 * y - 420 + 70 * t + 17 * x; // one moving source
  case 1: return c == 0 ? 256 : 256 + x; // none
  case 2: return tab[(5 * x + 3 * y + 7 * t + 9 * c + x * y) & 15];
  case 3: return c == 0 ? (x == 1 ? -100 : 100) + 3 * y : (y == 1 ? -100 : 100) + 5 * x + t; 
  case 4: return c == 0 ? 256 * x - 384 : 256 * y - 384 + 256 * t; // zeros in the middle, degenerate positions
  default: return c == 0 ? 2 * x - 2 : 2 * y - 2; } } // zeros on vertices
VE_ENTRY(ct2) { W = (int)ve_param("w", 2); H = (int)ve_param("h", 2); NT = (int)ve_param("nt", 2); int lay = (int)ve_param("lay", 0), ns = (int)ve_param("sym", 1), R = (int)ve_param("range", 300), ox = (int)ve_param("ox", 0), oy = (int)ve_param("oy", 0), jac = (int)ve_param("jac", 0), scal = (int)ve_param("scal", 0), t0 = (int)ve_param("t0", 0), bound = (int)ve_param("bound", 0);
  int nv = W * H * NT; std::vector<std::array<L, 2>> f(nv); std::vector<int> symv; for (int k = 0; k < ns; k++) { int v = ve_param("at", -1) >= 0 ? (int)ve_param("at", 0) + k : ve_choice("vertex", k, nv); symv.push_back(v); }
  for (int v = 0; v < nv; v++) for (int c = 0; c < 2; c++) f[v][c] = fld(lay, v % W, v / W % H, v / W / H, c);
  for (int k = 0; k < ns; k++) { for (int j = 0; j < k; j++) if (symv[j] == symv[k]) { END; return; } for (int c = 0; c < 2; c++) if (!ve_param("one", 0) || ve_param("one", 0) == c + 1) f[symv[k]][c] = ve_sym_int("u", 2 * k + c, -R, R); }
  diy::mpi::communicator comm; Tr tr(comm); tr.set_number_of_threads((int)ve_param("nthreads", 1)); tr.set_domain(lattice({(size_t)ox, (size_t)oy}, {(size_t)W - 2 * ox, (size_t)H - 2 * oy})); tr.set_array_domain(lattice({0, 0}, {(size_t)W, (size_t)H})); tr.set_start_timestep(t0); tr.set_current_timestep(t0); tr.set_scalar_field_source(scal ? SOURCE_GIVEN : SOURCE_NONE); tr.set_vector_field_source(SOURCE_GIVEN); tr.set_jacobian_field_source(jac ? SOURCE_GIVEN : SOURCE_NONE); tr.set_jacobian_symmetric(false); if (bound) tr.set_coords_bounds({-3, -3 + 5. * (W - 1), 10, 10 + 2. * (H - 1)}); tr.initialize();
  auto sc = [&](int v) { return (double)(v * v % 11 + 3 * v); }; auto jc = [&](int v, int i, int j) { return i == j ? (i ? 2. : 1. + v) : (i ? .5 : -.25 * v); };
  for (int t = 0; t < NT; t++) { ndarray<double> s, ve, J; ve.reshape({2, (size_t)W, (size_t)H}); if (scal) s.reshape({(size_t)W, (size_t)H}); if (jac) J.reshape({2, 2, (size_t)W, (size_t)H}); for (int x = 0; x < W; x++) for (int y = 0; y < H; y++) { int v = x + W * (y + H * t); for (int c = 0; c < 2; c++) ve(c, x, y) = (double)f[v][c] / 256; if (scal) s(x, y) = sc(v); if (jac) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) J(i, j, x, y) = jc(v, i, j); }
    tr.push_field_data_snapshot(s, ve, J); if (t) tr.advance_timestep(); if (t == NT - 1) tr.update_timestep(); }
  // the triangles of the space-time subdivision, enumerated independently
  auto &dp = tr.get_discrete_critical_points(); std::map<std::array<int, 3>, const feature_point_t *> got; auto &m = tr.mesh(); for (auto &kv : dp) { auto vs = kv.first.vertices(m); std::array<int, 3> k; for (int i = 0; i < 3; i++) k[i] = vs[i][0] + W * (vs[i][1] + H * (vs[i][2] - t0)); std::sort(k.begin(), k.end()); VE_CHECK(!got.count(k), "every face is reported once"); got[k] = &kv.second; VE_CHECK(kv.second.tag == kv.first.to_integer(m), "the tag identifies the face"); }
  size_t n = 0; for (int t = 0; t < NT; t++) for (int y = oy; y < H - oy; y++) for (int x = ox; x < W - ox; x++) for (int a = 1; a < 8; a++) for (int b = 1; b < 8; b++) { if (a == b || (a & b) != a) continue; int xs[3] = {x, x + (a & 1), x + (b & 1)}, ys[3] = {y, y + (a >> 1 & 1), y + (b >> 1 & 1)}, ts[3] = {t, t + (a >> 2), t + (b >> 2)}; if (xs[2] >= W - ox || ys[2] >= H - oy || ts[2] >= NT) continue; bool ord = ts[2] == t; std::array<int, 3> k; int id[3]; L q[3][2]; for (int i = 0; i < 3; i++) { k[i] = xs[i] + W * (ys[i] + H * ts[i]); id[i] = (xs[i] - ox) + (W - 2 * ox) * ((ys[i] - oy) + (H - 2 * oy) * (ts[i])); for (int c = 0; c < 2; c++) q[i][c] = f[k[i]][c]; }
    auto det = [&](int i, int j) { return q[i][0] * q[j][1] - q[i][1] * q[j][0]; }; L d[3] = {det(1, 2), det(2, 0), det(0, 1)}; bool in = robust_critical_point_in_simplex2(q, id), gen = (d[0] != 0) & (d[1] != 0) & (d[2] != 0); bool g = got.count(k); n += g; VE_CHECK(g == in, "a face is reported exactly if it is punctured"); if (gen) VE_CHECK(g == (((d[0] > 0) & (d[1] > 0) & (d[2] > 0)) | ((d[0] < 0) & (d[1] < 0) & (d[2] < 0))), "punctured means the zero lies inside"); if (!g) continue;
    auto &p = *got[k]; VE_CHECK((p.ordinal != 0) == ord, "ordinal exactly within a time slice"); VE_CHECK(p.timestep == t + t0, "time step"); L D = d[0] + d[1] + d[2]; if ((D == 0) || !ve_param("pos", 1)) continue; auto ip = [&](double v0, double v1, double v2) { return ((double)d[0] * v0 + (double)d[1] * v1 + (double)d[2] * v2); }; double px[3], py[3]; for (int i = 0; i < 3; i++) { px[i] = bound ? -3 + 5. * xs[i] : xs[i]; py[i] = bound ? 10 + 2. * ys[i] : ys[i]; }
    VE_CHECK(ve_near(p.x[0] * D, ip(px[0], px[1], px[2])) & ve_near(p.x[1] * D, ip(py[0], py[1], py[2])), "position of the zero in the face"); VE_CHECK(ve_near(p.t * D, ip(ts[0] + t0, ts[1] + t0, ts[2] + t0)), "time of the zero"); if (scal) VE_CHECK(ve_near(p.scalar[0] * D, ip(sc(k[0]), sc(k[1]), sc(k[2]))), "interpolated scalar"); }
  VE_CHECK(n == dp.size(), "nothing else is reported");
  if (ve_param("trace", 1)) { std::map<unsigned long long, const feature_point_t *> pts; for (auto &kv : dp) pts[kv.second.tag] = &kv.second; std::map<unsigned long long, std::array<int, 3>> ver; for (auto &kv : got) ver[kv.second->tag] = kv.first; std::set<unsigned long long> seen; size_t np = pts.size(); tr.finalize(); auto &cs = tr.get_traced_critical_points();
    for (auto &kv : cs) { auto &c = kv.second; VE_CHECK(c.size() > 0, "no empty trajectories"); for (size_t i = 0; i < c.size(); i++) { auto tag = c[i].tag; VE_CHECK(pts.count(tag) && !seen.count(tag), "every point is on one trajectory"); seen.insert(tag); if (i || (c.loop && c.size() > 2)) { auto &o = c[i ? i - 1 : c.size() - 1]; std::set<int> u; for (int v : ver[tag]) u.insert(v); for (int v : ver[o.tag]) u.insert(v); VE_CHECK(u.size() == 4, "successive points are on faces of one cell"); } } } VE_CHECK(seen.size() == np, "every point is on a trajectory");
    // the two punctured faces of a cell belong to one trajectory
    std::map<std::array<int, 3>, int> where; for (auto &kv : cs) for (size_t i = 0; i < kv.second.size(); i++) where[ver[kv.second[i].tag]] = kv.first;
    for (int t = 0; t + 1 < NT; t++) for (int y = oy; y + 1 < H - oy; y++) for (int x = ox; x + 1 < W - ox; x++) for (int a = 1; a < 7; a++) for (int b = 1; b < 7; b++) { if (a == b || (a & b) != a) continue; int ms[4] = {0, a, b, 7}, k[4], nf = 0, first = -1; for (int i = 0; i < 4; i++) k[i] = x + (ms[i] & 1) + W * (y + (ms[i] >> 1 & 1) + H * (t + (ms[i] >> 2))); for (int o = 0; o < 4; o++) { std::array<int, 3> q; for (int i = 0, j = 0; i < 4; i++) if (i != o) q[j++] = k[i]; std::sort(q.begin(), q.end()); auto it = where.find(q); if (it == where.end()) continue; if (nf++) VE_CHECK(it->second == first, "faces of one cell are on one trajectory"); else first = it->second; } VE_CHECK(nf != 1 && nf != 3, "a trajectory that enters a cell leaves it"); } }
  END; }
