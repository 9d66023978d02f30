// P15 derivative stencils on arrays and on triangle meshes
#include "ve.h"
#include <set>
#include <map>
#include <ftk/ndarray.hh>
#include <ftk/ndarray/grad.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
using namespace ftk;
#define END ve_reach("end")
typedef std::vector<size_t> V; typedef ndarray<double> A;
// a quadratic polynomial in up to three coordinates, coefficients symbolic (or the coordinate x_probe alone)
struct Poly { double c0, b[3], q[6]; int n; 
  Poly(int n_, int id, int probe = -1) : n(n_) { bool sym = probe < 0; int deg = (int)ve_param("deg", 2); c0 = sym ? ve_sym_real("c", id) : 0; for (int i = 0; i < 3; i++) b[i] = i < n ? (sym ? ve_sym_real("b", id * 3 + i) : i == probe ? 1. : 0.) : 0; for (int i = 0; i < 6; i++) q[i] = 0; if (sym && deg > 1) { int k = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { q[k] = ve_sym_real("q", id * 6 + k); k++; } } }
  double val(const double *x) const { double r = c0; int k = 0; for (int i = 0; i < n; i++) { r += b[i] * x[i]; } for (int i = 0; i < n; i++) for (int j = i; j < n; j++) r += q[k++] * x[i] * x[j]; return r; }
  double der(int a, const double *x) const { double r = b[a]; int k = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { if (i == a && j == a) r += 2 * q[k] * x[a]; else if (i == a) r += q[k] * x[j]; else if (j == a) r += q[k] * x[i]; k++; } return r; } };
static V dims(int n) { V d; int ex = (int)ve_param("ext", 5); for (int i = 0; i < n; i++) d.push_back(ex + (i == 0 ? ve_choice("w", 0, 2) : i == 1 ? 1 : 0)); return d; }
static size_t lin(const V &d, const int *i, int n) { size_t p = 0, m = 1; for (int j = 0; j < n; j++) { p += i[j] * m; m *= d[j]; } return p; }
template <class F> static void each(const V &d, int n, F f) { int i[3] = {0, 0, 0}; double x[3]; size_t N = 1; for (int j = 0; j < n; j++) N *= d[j]; for (size_t p = 0; p < N; p++) { size_t r = p; for (int j = 0; j < n; j++) { i[j] = (int)(r % d[j]); r /= d[j]; x[j] = i[j]; } f(i, x, p); } }
static bool inner(const V &d, const int *i, int n, int b) { for (int j = 0; j < n; j++) if (i[j] < b || i[j] >= (int)d[j] - b) return false; return true; }
// scale per axis: the 2D functions differentiate with respect to coordinates normalised to the unit interval
static double axis(const V &d, int n, int a) { return n == 2 ? (double)(d[a] - 1) : 1.; }
enum { T0 = 2 };
// array of the field(s): components first, time last
static A field(const V &d, int n, const std::vector<Poly> &ps, int nc, int nt) { V sh; if (nc > 0) sh.push_back(nc); for (int j = 0; j < n; j++) sh.push_back(d[j]); if (nt > 0) sh.push_back(nt); A a(sh); int C = nc ? nc : 1; size_t N = 1; for (int j = 0; j < n; j++) N *= d[j]; for (int t = 0; t < (nt ? nt : 1); t++) for (int c = 0; c < C; c++) each(d, n, [&](int *, double *x, size_t p) { a[c + C * (p + N * t)] = ps[t * C + c].val(x); }); return a; }
static std::vector<Poly> polys(int n, int k, int probe = -1) { std::vector<Poly> r; for (int i = 0; i < k; i++) r.push_back(Poly(n, i, probe)); return r; }
static A grad(int n, bool tv, const A &f) { return n == 2 ? (tv ? gradient2Dt(f) : gradient2D(f)) : (tv ? gradient3Dt(f) : gradient3D(f)); }
static bool eqs(double a, double b) { return ve_near(a, b, 200); }
VE_ENTRY(gr_grad) { int n = (int)ve_param("nd", 2); bool tv = ve_param("tv", 0); int nt = tv ? 2 : 0; V d = dims(n); auto ps = polys(n, tv ? 2 : 1), pr = polys(n, tv ? 2 : 1, 0); A g = grad(n, tv, field(d, n, ps, 0, nt)), u = grad(n, tv, field(d, n, pr, 0, nt)); V sh; sh.push_back(n); for (auto x : d) sh.push_back(x); if (tv) sh.push_back(2); VE_CHECK(g.shape() == sh, "shape of the gradient"); size_t N = 1; for (auto x : d) N *= x; int one[3] = {1, 1, 1}; double k = u[n * lin(d, one, n)] / axis(d, n, 0); VE_CHECK(k > 0, "the factor is positive");
  for (int t = 0; t < (tv ? 2 : 1); t++) each(d, n, [&](int *i, double *x, size_t p) { if (!inner(d, i, n, 1)) return; for (int a = 0; a < n; a++) VE_CHECK(eqs(g[a + n * (p + N * t)], k * axis(d, n, a) * ps[t].der(a, x)), "gradient is the derivative up to one factor"); }); END; }
static A jac(int n, bool tv, int mode, const A &f) { if (n == 2) return tv ? jacobian2Dt(f) : mode == 2 ? jacobian2D<double, true>(f) : jacobian2D<double, false>(f); return tv ? jacobian3Dt(f) : mode == 1 ? jacobian3D(f, 1) : jacobian3D(f); }
VE_ENTRY(gr_jac) { int n = (int)ve_param("nd", 2), mode = (int)ve_param("how", 0); bool tv = ve_param("tv", 0); int nt = tv ? 2 : 0, B = (n == 2 && !tv) || (n == 3 && mode == 1) ? 1 : 2; V d = dims(n); auto ps = polys(n, n * (tv ? 2 : 1)), pr = polys(n, n * (tv ? 2 : 1), 0); A J = jac(n, tv, mode, field(d, n, ps, n, nt)), u = jac(n, tv, mode, field(d, n, pr, n, nt)); V sh(2, n); for (auto x : d) sh.push_back(x); if (tv) sh.push_back(2); VE_CHECK(J.shape() == sh, "shape of the Jacobian"); size_t N = 1; for (auto x : d) N *= x; int b[3] = {B, B, B}; double k = u[n * n * lin(d, b, n)] / axis(d, n, 0); VE_CHECK(k > 0, "the factor is positive");
  for (int t = 0; t < (tv ? 2 : 1); t++) each(d, n, [&](int *i, double *x, size_t p) { if (!inner(d, i, n, B)) return; for (int c = 0; c < n; c++) for (int a = 0; a < n; a++) { double e = axis(d, n, a) * ps[t * n + c].der(a, x); if (mode == 2 && a != c) e = (e + axis(d, n, c) * ps[t * n + a].der(c, x)) / 2; VE_CHECK(eqs(J[c + n * (a + n * (p + N * t))], k * e), mode == 2 ? "symmetric part of the Jacobian" : "entry (c,a) is the derivative of component c along axis a"); } }); END; }
VE_ENTRY(gr_curl) { V d = dims(3); auto ps = polys(3, 3); std::vector<Poly> pr = polys(3, 3, 1); for (auto &x : pr[0].b) x = 0; for (auto &x : pr[1].b) x = 0; A f = field(d, 3, ps, 3, 0), w = vorticity3D(f), u = vorticity3D(field(d, 3, pr, 3, 0)); VE_CHECK(w.shape() == f.shape() & w.multicomponents() == 1, "shape"); int one[3] = {1, 1, 1}; double k = u[3 * lin(d, one, 3)]; VE_CHECK(k > 0, "the factor is positive"); each(d, 3, [&](int *i, double *x, size_t p) { if (!inner(d, i, 3, 1)) return; for (int a = 0; a < 3; a++) { int b = (a + 1) % 3, c = (a + 2) % 3; VE_CHECK(eqs(w[a + 3 * p], k * (ps[c].der(b, x) - ps[b].der(c, x))), "vorticity is the curl up to one factor"); } }); END; }
VE_ENTRY(gr_cross) { V d = {3, 4, 3}; V sh = {3, 3, 4, 3}; A a(sh), b(sh); for (size_t i = 0; i < a.size(); i++) { a[i] = ve_sym_real("a", (int)i); b[i] = ve_sym_real("b", (int)i); } A c = cross_product3D(a, b); VE_CHECK(c.shape() == sh, "shape"); each(d, 3, [&](int *i, double *, size_t p) { if (!inner(d, i, 3, 1)) return; for (int k = 0; k < 3; k++) { int l = (k + 1) % 3, m = (k + 2) % 3; VE_CHECK(eqs(c[k + 3 * p], a[l + 3 * p] * b[m + 3 * p] - a[m + 3 * p] * b[l + 3 * p]), "cross product at every inner point"); } }); END; }
VE_ENTRY(gr_jv) { V d = dims(3); auto ps = polys(3, 3); A f = field(d, 3, ps, 3, 0); bool tr = ve_param("t", 0); A w = tr ? JvT_dot_v(f) : Jv_dot_v(f), J = jacobian3D(f, 1); VE_CHECK(w.shape() == f.shape(), "shape"); each(d, 3, [&](int *i, double *x, size_t p) { if (!inner(d, i, 3, 1)) return; for (int k = 0; k < 3; k++) { double e = 0; for (int a = 0; a < 3; a++) e += J[tr ? a + 3 * (k + 3 * p) : k + 3 * (a + 3 * p)] * f[a + 3 * p]; VE_CHECK(eqs(w[k + 3 * p], e), "product of the Jacobian and the vector"); } }); END; }
// triangle meshes: affine fields on symbolic triangulations
static const int topo_[][16] = {{3, 1, 0, 1, 2}, {4, 2, 0, 1, 2, 2, 1, 3}, {5, 4, 0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1}};
VE_ENTRY(gr_mesh) { int tp = (int)ve_param("topo", 1), nv = topo_[tp][0], nt = topo_[tp][1]; std::vector<double> co; std::vector<int> tri; static const double cc[] = {0, 0, 2, 0.5, 0.25, 3, -1, 1.5, -0.5, -2}; bool conc = ve_param("conc", 0); double sx = conc ? ve_sym_real("sx", 0) : 0; if (conc) VE_ASSUME((sx != 0) & (sx > -100) & (sx < 100)); for (int i = 0; i < nv; i++) { co.push_back(conc ? cc[2 * i] * sx : ve_sym_real("x", i)); co.push_back(conc ? cc[2 * i + 1] : ve_sym_real("y", i)); } for (int t = 0; t < nt; t++) { for (int j = 0; j < 3; j++) tri.push_back(topo_[tp][2 + 3 * t + j]); int *q = &tri[3 * t]; double det = (co[2 * q[1]] - co[2 * q[0]]) * (co[2 * q[2] + 1] - co[2 * q[0] + 1]) - (co[2 * q[2]] - co[2 * q[0]]) * (co[2 * q[1] + 1] - co[2 * q[0] + 1]); VE_ASSUME(det != 0); }
  simplicial_unstructured_2d_mesh<> m(co, tri); double a[2], b[2][2], J[2][2]; A f(V({(size_t)nv})), v(V({2, (size_t)nv})); for (int c = 0; c < 2; c++) { a[c] = ve_sym_real("a", c); for (int k = 0; k < 2; k++) b[c][k] = ve_sym_real("b", c * 2 + k); } for (int i = 0; i < nv; i++) for (int c = 0; c < 2; c++) { double s = a[c] + b[c][0] * co[2 * i] + b[c][1] * co[2 * i + 1]; v[c + 2 * i] = s; if (c == 0) f[i] = s; }
  A g = m.scalar_gradient(f), G = m.vector_gradient(v), g2, H; m.scalar_gradient_jacobian(f, g2, H); VE_CHECK(g.nelem() == 2 * (size_t)nv & G.nelem() == 4 * (size_t)nv & H.nelem() == 4 * (size_t)nv, "shape"); for (int i = 0; i < nv; i++) for (int k = 0; k < 2; k++) { VE_CHECK(ve_near(g[k + 2 * i], b[0][k], 1e4), "scalar gradient at a vertex"); VE_CHECK(ve_near(g2[k + 2 * i], b[0][k], 1e4), "gradient"); for (int c = 0; c < 2; c++) { VE_CHECK(ve_near(G[k + 2 * (c + 2 * i)], b[c][k], 1e4), "vector gradient (axis, component) at a vertex"); VE_CHECK(ve_near(H[k + 2 * (c + 2 * i)], 0, 1e4), "second derivatives of an affine field vanish"); } } END; }
