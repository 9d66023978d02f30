// P20 nearest-neighbour search
#include "ve.h"
#include <queue>
#include <cassert>
#include <ftk/ndarray.hh>
#include <ftk/basic/kd.hh>
using namespace ftk;
#define END ve_reach("end")
#ifndef DIM
#define DIM 2
#endif
typedef kd_t<double, DIM> KD;
static double X[8][4];
static double any(const char *n, int i) { double v = ve_sym_real(n, i); VE_ASSUME((v >= -1000) & (v <= 1000)); return v; }
// point sets in general position, with ties, on lines, with duplicates
static const int LAY[8][8][3] = {{{3,1,4},{-1,5,9},{2,-6,5},{-3,-5,8},{9,7,-9},{4,2,0},{-8,0,1},{6,-4,-2}}, {{0,0,0},{1,0,1},{0,1,1},{1,1,0},{2,0,0},{0,2,1},{2,1,1},{1,2,0}}, {{0,5,0},{1,4,1},{2,3,2},{3,2,3},{4,1,4},{5,0,5},{6,-1,6},{7,-2,7}}, {{2,0,0},{2,1,0},{2,2,0},{2,3,1},{2,-1,1},{2,5,1},{2,-4,2},{2,9,2}}, {{1,1,1},{1,1,1},{4,4,4},{4,4,4},{-2,3,0},{-2,3,0},{5,-5,5},{1,1,1}}, {{10,0,3},{0,10,3},{-10,0,3},{0,-10,3},{7,7,3},{-7,7,3},{7,-7,3},{-7,-7,3}}, {{5,0,7},{4,8,6},{3,1,5},{2,7,4},{1,2,3},{0,6,2},{-1,3,1},{-2,5,0}}, {{0,0,9},{100,1,8},{1,-100,7},{-99,3,6},{2,98,5},{50,-50,4},{-51,49,3},{3,4,2}}};
// coordinates: symbolic reals, or (grid > 0) solver-chosen places of a small grid
static void pts(KD &kd, int np, bool arr) { int g = (int)ve_param("grid", 0), g1 = (int)ve_param("grid1", 0); int lay = ve_param("layouts", 0) ? ve_choice("layout", 0, 8) : -1; std::vector<double> p(np * (DIM + 1)); ndarray<double> a({(size_t)DIM, (size_t)np}); for (int i = 0; i < np; i++) for (int k = 0; k < DIM; k++) { int gg = k == 1 && g1 ? g1 : g; double v = X[i][k] = lay >= 0 ? (double)LAY[lay][i][k] : gg ? (double)ve_concretize(ve_sym_int("g", i * 4 + k, 0, gg - 1)) : any("x", i * 4 + k); p[i * (DIM + 1) + k] = v; a.at(k, i) = v; } if (arr) kd.set_inputs(a); else kd.set_inputs((size_t)np, p.data(), (size_t)(DIM + 1)); kd.build(); }
static double d2(const std::array<double, DIM> &x, size_t i) { double s = 0; for (int k = 0; k < DIM; k++) { double d = x[k] - X[i][k]; s += d * d; } return s; }
VE_ENTRY(kd_nearest) { int np = (int)ve_param("np", 3), how = (int)ve_param("how", 0); KD kd; pts(kd, np, ve_param("arr", 0)); std::array<double, DIM> x; for (int k = 0; k < DIM; k++) x[k] = ve_param("fixq", 0) ? 0.5 * k - 0.25 : any("q", k); size_t r = how == 0 ? kd.find_nearest(x) : how == 1 ? kd.find_nearest(x.data()) : kd.find_nearest_naive(x); VE_CHECK(r < (size_t)np, "a point of the set"); r = (size_t)ve_concretize((int64_t)r); double b = d2(x, r); for (int i = 0; i < np; i++) if (i != (int)r) VE_CHECK(ve_le(b, d2(x, i)), "no point is closer"); END; }
// the query is one of the points
VE_ENTRY(kd_self) { int np = (int)ve_param("np", 3); KD kd; pts(kd, np, true); int i = (int)ve_concretize(ve_sym_int("i", 0, 0, np - 1)); std::array<double, DIM> x; for (int k = 0; k < DIM; k++) x[k] = X[i][k]; size_t r = kd.find_nearest(x); VE_CHECK(r < (size_t)np, "a point of the set"); VE_CHECK(ve_near(d2(x, r), 0, 1e3), "a point finds itself"); END; }
