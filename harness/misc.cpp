// P36 quaternions, rotations, stepping, scalar helpers; P35 layers, cells, Wachspress coordinates
#include "ve.h"
#include <sstream>
#include <math.h>
#include <ftk/numeric/isnan.hh>
#include <ftk/numeric/quaternion.hh>
#include <ftk/numeric/gcd.hh>
#include <ftk/numeric/fmod.hh>
#include <ftk/numeric/rational_number.hh>
#include <ftk/numeric/fixed_point.hh>
#include <ftk/numeric/sign.hh>
#include <ftk/numeric/rad.hh>
#include <ftk/numeric/rk4.hh>
#include <ftk/numeric/wachspress_interpolation.hh>
#include <ftk/numeric/mpas.hh>
using namespace ftk;
#define END ve_reach("end")
static void sym3(const char *n, int b, double *v, int k = 3) { for (int i = 0; i < k; i++) v[i] = ve_sym_real(n, b + i); }
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void crs(const double *a, const double *b, double *c) { for (int i = 0; i < 3; i++) c[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; }
VE_ENTRY(q_mul) { double x[4], y[4], z[4], w[4], p[4], q[4]; sym3("x", 0, x, 4); sym3("y", 0, y, 4); sym3("w", 0, w, 4); quatmul(x, y, z); VE_CHECK(ve_near(z[0], x[0] * y[0] - x[1] * y[1] - x[2] * y[2] - x[3] * y[3], 10) & ve_near(z[1], x[0] * y[1] + x[1] * y[0] + x[2] * y[3] - x[3] * y[2], 10) & ve_near(z[2], x[0] * y[2] - x[1] * y[3] + x[2] * y[0] + x[3] * y[1], 10) & ve_near(z[3], x[0] * y[3] + x[1] * y[2] - x[2] * y[1] + x[3] * y[0], 10), "Hamilton product"); double n = 0, a = 0, b = 0; for (int i = 0; i < 4; i++) { n += z[i] * z[i]; a += x[i] * x[i]; b += y[i] * y[i]; } VE_CHECK(ve_near(n, a * b, 1e3), "norms multiply"); quatmul(z, w, p); quatmul(y, w, q); double r[4]; quatmul(x, q, r); for (int i = 0; i < 4; i++) VE_CHECK(ve_near(p[i], r[i], 1e3), "associative"); END; }
static void rot_check(const double *axis, double th, const double *x, const double *r) { double c = std::cos(th / 2), s = std::sin(th / 2), ct = c * c - s * s, st = 2 * c * s, kx[3], n2 = dot(axis, axis), k = dot(axis, x); crs(axis, x, kx); double nn = std::sqrt(n2); for (int i = 0; i < 3; i++) VE_CHECK(ve_near(r[i] * n2, x[i] * ct * n2 + kx[i] * st * nn + axis[i] * k * (1 - ct), 1e3), "rotation by the angle about the axis"); }
VE_ENTRY(q_rot) { double a[3], x[3], r[3], th = ve_sym_real("th", 0); sym3("a", 0, a); sym3("x", 0, x); if (ve_param("dir", 0)) { static const double dr[][3] = {{2, 1, 2}, {-2, 3, 6}, {4, -4, 7}, {3, 0, -4}, {-1, -2, 2}}; int k = ve_choice("dir", 0, 5); double sc = ve_choice("scale", 0, 2) ? 2.5 : 1; for (int i = 0; i < 3; i++) a[i] = dr[k][i] * sc; } else if (ve_param("ax", 0)) { int k = (int)ve_param("ax", 0) - 1; for (int i = 0; i < 3; i++) if (i != k) a[i] = 0; VE_ASSUME(a[k] != 0); } else VE_ASSUME(dot(a, a) != 0); axis_rotate_vector(a, th, x, r); rot_check(a, th, x, r); double y[3] = {x[0], x[1], x[2]}; axis_rotate_vector(a, th, y, y); VE_CHECK(y[0] == r[0] & y[1] == r[1] & y[2] == r[2], "in place"); END; }
VE_ENTRY(q_rot0) { double a[3] = {0, 0, 0}, x[3], r[3], th = ve_sym_real("th", 0); sym3("x", 0, x); axis_rotate_vector(a, th, x, r); VE_CHECK(r[0] == x[0] & r[1] == x[1] & r[2] == x[2], "no axis, no rotation"); END; }
VE_ENTRY(q_rotlen) { double x[3], r[3], th = ve_sym_real("th", 0), a[3] = {0, 0, 0}; int k = ve_choice("axis", 0, 3); a[k] = ve_choice("neg", 0, 2) ? -2 : 3; a[(k + 1) % 3] = ve_choice("tilt", 0, 2) ? 4 * a[k] / 3 : 0; sym3("x", 0, x); axis_rotate_vector(a, th, x, r); VE_CHECK(ve_near(dot(r, r), dot(x, x), 1e3), "length is kept"); VE_CHECK(ve_near(dot(r, a), dot(x, a), 1e3), "axis component is kept"); END; }
// stepping on the sphere
VE_ENTRY(st_ang) { // x on the first axis, v tangential
  double R = ve_sym_real("R", 0), v[5], x[5], h = ve_sym_real("h", 0), xn[5] = {0, 0, 0, 0, 0}; VE_ASSUME(R > 0); int k = ve_choice("axis", 0, 3), j = (k + 1) % 3, l = (k + 2) % 3; x[k] = R; x[j] = x[l] = 0; x[3] = ve_sym_real("t", 0); x[4] = 0; v[k] = 0; int along = ve_choice("along", 0, 4); double sp = ve_sym_real("speed", 0); VE_ASSUME(sp >= 0); v[j] = v[l] = 0; v[3] = ve_sym_real("v", 3); v[4] = ve_sym_real("v", 4); if (along == 0) v[j] = sp; if (along == 1) v[l] = -sp; if (along == 2) { v[j] = 3 * sp / 5; v[l] = 4 * sp / 5; } if (along == 3) { v[j] = -5 * sp / 13; v[l] = 12 * sp / 13; }
  double th = h * (sp / R); double c = std::cos(th / 2), s = std::sin(th / 2), ct = c * c - s * s, st = 2 * c * s; xn[3] = x[3]; angular_stepping(x, v, h, xn); double e[3]; e[k] = R * ct; if (ve_native() | (sp != 0)) { double inv = sp != 0 ? R * st / sp : 0; e[j] = v[j] * inv; e[l] = v[l] * inv; } else e[j] = e[l] = 0; for (int i = 0; i < 3; i++) if (sp != 0) VE_CHECK(ve_near(xn[i], e[i], 1e3), "moves along the great circle by the angle h*speed/R"); else VE_CHECK(xn[i] == x[i], "a particle at rest stays"); VE_CHECK(ve_near(dot(xn, xn), R * R, 1e4), "radius is kept");
  double y[5] = {0, 0, 0, 0, 0}; angular_and_vertical_stepping(x, v, h, y); double R1 = R + v[4] * h; for (int i = 0; i < 3; i++) VE_CHECK(ve_near(y[i] * R, xn[i] * R1, 1e4), "vertical motion scales the radius"); VE_CHECK(ve_near(y[3], x[3] + h * v[3], 10), "time advances"); VE_CHECK(ve_near(xn[3], x[3] + h, 10), "time advances by the step"); END; }
VE_ENTRY(st_sph) { double x[4], v[4], h = ve_sym_real("h", 0), xn[4]; sym3("x", 0, x, 3); sym3("v", 0, v, 3); double w[3]; for (int i = 0; i < 3; i++) w[i] = x[i] + h * v[i]; VE_ASSUME((dot(x, x) > 0) & (dot(w, w) > 0)); spherical_stepping(x, v, h, xn); VE_CHECK(ve_near(dot(xn, xn), dot(x, x), 1e3), "radius is kept"); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3; VE_CHECK(ve_near(xn[i] * w[j], xn[j] * w[i], 1e3), "direction of the tangential step"); } END; }
// RK4 on linear fields: x' = A x + b
VE_ENTRY(rk_lin) { int n = (int)ve_param("n", 2); double A[9], b[3], x[3], p0[3], h = ve_sym_real("h", 0), v0[3]; sym3("A", 0, A, n * n); sym3("b", 0, b, n); sym3("x", 0, x, n); int fail = ve_choice("fail", 0, 6), calls = 0; for (int i = 0; i < n; i++) p0[i] = x[i]; auto F = [&](const double *p, double *v) { calls++; if (calls == fail) return false; for (int i = 0; i < n; i++) { v[i] = b[i]; for (int j = 0; j < n; j++) v[i] += A[i * n + j] * p[j]; } return true; }; bool r = rk4<double>(n, x, F, h, v0); VE_CHECK(r == (fail == 0 || fail > 4), "succeeds exactly if the field was defined at every stage"); if (r) { double t[3], k[3], e[3]; for (int i = 0; i < n; i++) { k[i] = b[i]; for (int j = 0; j < n; j++) k[i] += A[i * n + j] * p0[j]; VE_CHECK(ve_near(v0[i], k[i], 10), "velocity at the start"); e[i] = p0[i]; k[i] *= h; } double f = 1; for (int q = 1; q <= 4; q++) { f *= q; for (int i = 0; i < n; i++) e[i] += k[i] / f; for (int i = 0; i < n; i++) { t[i] = 0; for (int j = 0; j < n; j++) t[i] += A[i * n + j] * k[j]; } for (int i = 0; i < n; i++) k[i] = h * t[i]; } for (int i = 0; i < n; i++) VE_CHECK(ve_near(x[i], e[i], 1e6), "fourth-order Taylor step"); } END; }
VE_ENTRY(rk_quad) { double c[4], x[2] = {ve_sym_real("x", 0), ve_sym_real("x", 1)}, h = ve_sym_real("h", 0), x0 = x[0], t0 = x[1]; sym3("c", 0, c, 4); auto F = [&](const double *p, double *v) { double t = p[1]; v[0] = c[0] + t * (c[1] + t * (c[2] + t * c[3])); v[1] = 1; return true; }; rk4<double>(2, x, F, h); auto I = [&](double t) { return t * (c[0] + t * (c[1] / 2 + t * (c[2] / 3 + t * c[3] / 4))); }; VE_CHECK(ve_near(x[0], x0 + I(t0 + h) - I(t0), 1e6) & ve_near(x[1], t0 + h, 10), "exact for fields cubic in time"); END; }
VE_ENTRY(rk_sph) { double x[5] = {0, 0, 0, ve_sym_real("t", 0), 0}, h = ve_sym_real("h", 0); int k = ve_choice("axis", 0, 3); double R = ve_sym_real("R", 0); VE_ASSUME((R > 0) & (h > 0)); x[k] = R; int fail = ve_choice("fail", 0, 6), calls = 0; double up = ve_sym_real("up", 0), t = x[3]; VE_ASSUME(R + up * h > 0); VE_ASSUME(R + up * h / 2 > 0); auto F = [&](const double *p, double *v) { calls++; if (calls == fail) return false; v[0] = v[1] = v[2] = 0; v[3] = 1; v[4] = up; return true; }; double v0[10]; for (double &q : v0) q = -9; bool r = spherical_rk4_with_vertical_velocity<double>(x, F, h); VE_CHECK(r == (fail == 0 || fail > 4), "succeeds exactly if the field was defined at every stage"); if (r) { VE_CHECK(ve_near(x[3], t + h, 10), "time advances"); for (int i = 0; i < 3; i++) VE_CHECK(ve_near(x[i], i == k ? R + up * h : 0, 1e3), "pure vertical motion"); }
  double y[5] = {0, 0, 0, t, 7}, w[10]; y[k] = R; calls = 0; auto F4 = [&](const double *, double *v) { calls++; if (calls == fail) return false; v[0] = v[1] = v[2] = 0; v[3] = 1; return true; }; bool r1 = spherical_rk1<double>(y, F4, h, nullptr); VE_CHECK(r1 == (fail != 1), "first-order step"); if (r1) VE_CHECK(ve_near(y[k], R, 10) & ve_near(y[3], t + h, 10), "first-order step at rest"); double z[5] = {0, 0, 0, t, 7}; z[k] = R; calls = 0; bool r2 = spherical_rk1_with_vertical_velocity<double>(z, F, h, nullptr); VE_CHECK(r2 == (fail != 1), "first-order step with vertical velocity"); if (r2) VE_CHECK(ve_near(z[k], R, 10) & ve_near(z[3], t + h, 10) & ve_near(z[4], 7 + up * h, 10), "height advances by the vertical velocity"); END; }
// scalars
static long lg(const char *n, int i, long m) { return ve_sym_int(n, i, -m, m); }
VE_ENTRY(s_gcd) { long m = ve_param("m", 7); long a = (long)ve_concretize(lg("a", 0, m)), b = (long)ve_concretize(lg("b", 0, m)); long g = gcd(a, b); VE_CHECK(g >= 0, "gcd is not negative"); VE_CHECK(g > 0 | (a == 0 & b == 0), "gcd of a non-zero pair is positive"); if (g) { VE_CHECK(a % g == 0 & b % g == 0, "divides both"); for (long d = 1; d <= m; d++) if (a % d == 0 && b % d == 0) VE_CHECK(g % d == 0, "every common divisor divides it"); } VE_CHECK(gcd((int)a, (int)b) == (int)g, "int"); END; }
VE_ENTRY(s_gcd_big) { long u = ve_sym_int("u", 0, 1, 1000000), q = ve_sym_int("q", 0, 1, 1000); VE_CHECK(gcd(u, u * q) == u & gcd(u * q, u) == u & gcd(-u, u * q) == u & gcd(u * q, -u) == u, "gcd of a number and its multiple"); VE_CHECK(gcd(0L, u) == u & gcd(u, 0L) == u & gcd(0L, -u) == u & gcd(-u, 0L) == u, "gcd with zero"); END; }
VE_ENTRY(s_sign) { double x = ve_sym_real("x", 0); long i = ve_sym_int("i", 0, INT64_MIN, INT64_MAX); VE_CHECK(sign(x) == (x > 0 ? 1 : x < 0 ? -1 : 0) & sign(i) == (i > 0 ? 1 : i < 0 ? -1 : 0), "sign"); END; }
VE_ENTRY(s_mod) { double x = ve_sym_real("x", 0), y = ve_sym_real("y", 0); VE_ASSUME((y > 0) & (y < 1000) & (x > -3 * y) & (x < 3 * y)); double z = fmod1(x, y); VE_CHECK((z >= 0) & (z < y), "modulo lies in [0, y)"); bool ok = false; for (int k = -4; k <= 4; k++) ok |= ve_near(x, z + k * y, 1e3); VE_CHECK(ok, "differs by a multiple of y"); double p = 2 * M_PI, a = ve_sym_real("a", 0); VE_ASSUME((a > -15) & (a < 15)); double w = mod2pi(a), u = mod2pi1(a); VE_CHECK((w >= 0) & ve_le(w, p) & (ve_native() | (w < p)), "mod2pi lies in [0, 2 pi)"); VE_CHECK((u >= -M_PI) & ve_le(u, M_PI) & (ve_native() | (u < M_PI)), "mod2pi1 lies in [-pi, pi)"); bool o2 = false, o3 = false; for (int k = -5; k <= 5; k++) { o2 |= ve_near(a, w + k * p, 1e2); o3 |= ve_near(a, u + k * p, 1e2); } VE_CHECK(o2 & o3, "differs by a multiple of 2 pi"); END; }
VE_ENTRY(s_rad) { double x = ve_sym_real("x", 0); VE_CHECK(ve_near(rad2deg(deg2rad(x)), x, 10) & ve_near(deg2rad(rad2deg(x)), x, 10), "conversions invert each other"); VE_CHECK(ve_near(deg2rad(x) * 180, x * M_PI, 100), "180 degrees are pi"); END; }
typedef rational<long> Q;
static long fl(long a, long b) { return a / b - (a % b < 0); }
static void canon(const Q &q, const char *w) { VE_CHECK(q.denominator() > 0, "denominator is positive"); VE_CHECK(gcd(q.numerator(), q.denominator()) == 1, "reduced"); }
VE_ENTRY(s_rat) { int m = (int)ve_param("m", 4); long a = lg("a", 0, m), b = ve_sym_int("b", 0, 1, m), c = lg("c", 0, m), d = ve_sym_int("d", 0, 1, m); a = ve_concretize(a); b = ve_concretize(b); c = ve_concretize(c); d = ve_concretize(d); int sg = ve_choice("sg", 0, 2) ? -1 : 1; Q x(sg * a, sg * b), y(c, d); canon(x, "x"); canon(y, "y"); VE_CHECK(x.numerator() * b == a * x.denominator(), "value of a fraction");
  auto is = [&](const Q &q, long n, long e) { canon(q, ""); return q.numerator() * e == n * q.denominator(); };
  VE_CHECK(is(x + y, a * d + c * b, b * d), "sum"); VE_CHECK(is(x - y, a * d - c * b, b * d), "difference"); Q z(x); z *= y; VE_CHECK(is(z, a * c, b * d), "product"); if (c) { Q w(x); w /= y; VE_CHECK(is(w, c < 0 ? -a * d : a * d, c < 0 ? -b * c : b * c), "quotient"); }
  Q u(x); u += c; VE_CHECK(is(u, a + c * b, b), "sum with an integer"); u = x; u -= c; VE_CHECK(is(u, a - c * b, b), "difference with an integer"); u = x; u *= c; VE_CHECK(is(u, a * c, b), "product with an integer"); if (c) { u = x; u /= c; VE_CHECK(is(u, c < 0 ? -a : a, c < 0 ? -c * b : c * b), "quotient with an integer"); } u = x; ++u; VE_CHECK(is(u, a + b, b), "increment"); u = x; --u; VE_CHECK(is(u, a - b, b), "decrement"); u = c; VE_CHECK(is(u, c, 1), "assignment of an integer"); u.assign(c, d); VE_CHECK(is(u, c, d), "assign"); VE_CHECK(!x == (a == 0), "zero test");
  VE_CHECK((x < y) == (a * d < c * b), "less"); VE_CHECK((x == y) == (a * d == c * b), "equal"); VE_CHECK((x < c) == (a < c * b) & (x > c) == (a > c * b) & (x == c) == (a == c * b), "comparison with an integer"); double v = rational_cast<double>(x); VE_CHECK(ve_near(v * b, (double)a, 10), "conversion to floating point"); END; }
typedef fixed_point<> FP;
VE_ENTRY(s_fix) { const long F = FTK_FP_PRECISION; long a = lg("a", 0, 1 << 20), b = lg("b", 0, 1 << 20); FP x, y; x = (int)0; FP zero; VE_CHECK(x == zero, "zero"); double ra = ve_sym_real("r", 0); VE_ASSUME((ra > -30000) & (ra < 30000)); FP r(ra); double back = r.to_double(); VE_CHECK((back - ra) * F < 1 & (ra - back) * F < 1, "closer than one unit to the number"); VE_CHECK(ra >= 0 ? back <= ra : back >= ra, "rounded towards zero"); FP r2; r2 = ra; VE_CHECK(r2 == r, "assignment");
  long k = lg("k", 0, 30000), l = lg("l", 0, 30000); FP p((int)k), q((int)l); VE_CHECK(p.integer() == k * F & p.to_int() == k & p.to_double() == (double)k, "integers are exact"); VE_CHECK((p + q).integer() == (k + l) * F & (p - q).integer() == (k - l) * F & (-p).integer() == -k * F, "sum and difference"); VE_CHECK((p < q) == (k < l) & (p <= q) == (k <= l) & (p == q) == (k == l) & (p > q) == (k > l) & (p >= q) == (k >= l), "comparison"); FP i(p); ++i; VE_CHECK(i.integer() == (k + 1) * F, "increment"); --i; --i; VE_CHECK(i.integer() == (k - 1) * F, "decrement"); VE_CHECK(!p == (k == 0), "zero test"); END; }
VE_ENTRY(s_fixmul) { const long F = FTK_FP_PRECISION; long k = lg("k", 0, 2000); long l = ve_choice("l", 0, 17) - 8; FP p((int)k), q((int)l), h(0.5); VE_CHECK((p * q).integer() == k * l * F, "product of integers"); VE_CHECK((p * h).integer() * 2 == k * F & (h * p).integer() * 2 == k * F, "half"); if (l) { FP z = p / q; VE_CHECK(z.integer() == (k * F * F) / (l * F), "quotient rounded towards zero"); VE_CHECK((p * q / q) == p, "quotient inverts the product"); VE_CHECK((p / h).integer() == 2 * k * F, "division by one half"); } END; }
// P35
VE_ENTRY(ml_layer) { int n = (int)ve_param("n", 4); double z[9], x = ve_sym_real("x", 0); for (int i = 0; i < n; i++) { z[i] = ve_sym_real("z", i); VE_ASSUME((z[i] > -1e6) & (z[i] < 1e6)); if (i) VE_ASSUME(z[i] < z[i - 1]); } z[n] = z[n - 1]; int r = locate_mpas_layer_bisection(n, z, x); bool any = false; for (int i = 0; i + 1 < n; i++) { bool in = (x <= z[i]) & (x > z[i + 1]); any |= in; if (in) VE_CHECK(r == i, "the layer that contains the depth"); } if (!any) VE_CHECK(r == -1, "out of range exactly if no layer contains the depth"); int b = locate_mpas_layer_brute_force(n - 1, z, x); VE_CHECK(b == r, "both searches agree"); END; }
VE_ENTRY(ml_nan) { double z[4] = {0, -1, -2.5, -7}, q[3] = {NAN, INFINITY, -INFINITY}; VE_CHECK(locate_mpas_layer_bisection(4, z, q[ve_choice("q", 0, 3)]) == -1, "out of range"); END; }
static const double bases[][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {2, 1, 1, -1, 3, 1, 0, -1, 4}, {0.5, 0.25, 3, 1, 0, 2, 0, 1.5, 2.5}, {-1, 0.5, 0.25, -2, -1, 0.5, -1, 0, 2}};
// convex spherical polygon given by its coordinates in a positively oriented basis; the point likewise
VE_ENTRY(cell_in) { int n = (int)ve_param("n", 3); const double *B = bases[ve_choice("basis", 0, 4)]; double det = B[0] * (B[4] * B[8] - B[5] * B[7]) - B[1] * (B[3] * B[8] - B[5] * B[6]) + B[2] * (B[3] * B[7] - B[4] * B[6]); VE_ASSUME(det > 0); double c[5][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, p[3], x[3], Xv[5][3]; sym3("p", 0, p); if (n == 4) { sym3("c", 0, c[3]); VE_ASSUME((c[3][0] > 0) & (c[3][1] < 0) & (c[3][2] > 0)); } auto to = [&](const double *u, double *w) { for (int k = 0; k < 3; k++) w[k] = u[0] * B[k] + u[1] * B[3 + k] + u[2] * B[6 + k]; }; for (int i = 0; i < n; i++) to(c[i], Xv[i]); to(p, x); bool in = point_in_mpas_cell<double>(n, Xv, x);
  bool e = (p[0] >= 0) & (p[1] >= 0) & (p[2] >= 0); if (n == 4) { /* triangle 0,2,3: p = s*v0 + t*v2 + u*v3 */ double u = -p[1]; double s = p[0] * -c[3][1] - c[3][0] * u, t = p[2] * -c[3][1] - c[3][2] * u; bool e2 = (u >= 0) & (s >= 0) & (t >= 0); e |= e2; } VE_CHECK(in == e, "inside exactly if the point lies in the convex cone of the vertices"); double q[3] = {x[0], x[1], x[2]}; q[ve_choice("nan", 0, 3)] = NAN; VE_CHECK(!point_in_mpas_cell<double>(n, Xv, q) & !point_in_mpas_cell<double>(0, Xv, x), "undefined points and empty cells are outside"); END; }
VE_ENTRY(wach) { int n = (int)ve_param("n", 4), ax = ve_choice("plane", 0, 3); double P[6][2], x[2], X[6][3], y[3], om[6], off = ve_sym_real("off", 0); if (ve_param("conc", 0)) { static const double pents[][12] = {{0, 0, 4, -1, 6, 2, 3, 5, -1, 3, -2, 1}, {1, 1, 1.5, 1, 2, 1.75, 1.5, 2.5, 1, 2.5, 0.5, 1.75}, {-3, -3, 5, -4, 5.5, 6, -2, 7, -3.5, 2, -3.75, -1}}; const double *pent = pents[ve_choice("shape", 0, 3)]; for (int i = 0; i < n; i++) { P[i][0] = pent[2 * i]; P[i][1] = pent[2 * i + 1]; } } else for (int i = 0; i < n; i++) { P[i][0] = ve_sym_real("x", i); P[i][1] = ve_sym_real("y", i); } x[0] = ve_sym_real("p", 0); x[1] = n == 6 ? ve_choice("py", 0, 16) / 2.0 - 1.75 : ve_sym_real("p", 1); auto area = [&](const double *a, const double *b, const double *c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }; for (int i = 0; i < n; i++) { VE_ASSUME(area(P[i], P[(i + 1) % n], x) > 0); VE_ASSUME(area(P[(i + n - 1) % n], P[i], P[(i + 1) % n]) > 0); } auto put = [&](const double *u, double *w) { w[ax] = u[0]; w[(ax + 1) % 3] = u[1]; w[(ax + 2) % 3] = off; }; for (int i = 0; i < n; i++) put(P[i], X[i]); put(x, y);
  wachspress_weights<double>(n, X, y, om); double S = 0, r[2] = {0, 0}; for (int i = 0; i < n; i++) { VE_CHECK(om[i] > 0, "weights are positive inside"); S += om[i]; for (int k = 0; k < 2; k++) r[k] += om[i] * P[i][k]; } VE_CHECK(ve_near(S, 1), "weights sum to one"); for (int k = 0; k < 2; k++) VE_CHECK(ve_near(r[k], x[k], 1e3), "affine functions are reproduced"); END; }
