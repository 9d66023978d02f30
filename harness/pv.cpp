// P30 parallel vectors
#include "ve.h"
#include <ftk/numeric/critical_point_type.hh>
#include <ftk/numeric/parallel_vector_solver2.hh>
#include <ftk/numeric/parallel_vector_solver3.hh>
using namespace ftk;
static double R(const char *n, int i) { return ve_sym_real(n, i); }
#define NEAR(a, b, m) VE_CHECK(ve_near(a, b, 1e2), m)
#define END ve_reach("end")
template <int m, int n> static void mat(const char *nm, double A[m][n]) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = R(nm, i * n + j); }
static void nz(double x) { VE_ASSUME((x == 0) | (x >= 1e-6) | (x <= -1e-6)); }
static const double E = 1e-9;
// segment, two-dimensional fields: soundness
VE_ENTRY(pv_s1v2) { double V[2][2], W[2][2]; int kind = (int)ve_param("kind", 0); mat<2, 2>("v", V); if (kind == 0) { double c[2] = {R("w", 0), R("w", 1)}; for (int i = 0; i < 2; i++) W[i][0] = c[0], W[i][1] = c[1]; } else { static const double W0[3][2][2] = {{{1, 0}, {0, 1}}, {{2, 1}, {-1, 3}}, {{1, 2}, {3, -4}}}; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) W[i][k] = W0[kind - 1][i][k]; } nz(V[0][0] * V[1][1] - V[0][1] * V[1][0]); nz(W[0][0] * W[1][1] - W[0][1] * W[1][0]);
  double *l = new double[2], (*mu)[2] = new double[2][2]; int n = solve_pv_s1v2(V, W, l, mu); VE_CHECK((n >= 0) & (n <= 2), "number of solutions");
  for (int i = 0; i < n; i++) { VE_CHECK((mu[i][0] >= -E) & (mu[i][0] <= 1 + E) & (mu[i][1] >= -E) & (mu[i][1] <= 1 + E), "inside the segment"); NEAR(mu[i][0] + mu[i][1], 1, "coordinates sum to one"); VE_CHECK(l[i] != 0, "ratio"); for (int k = 0; k < 2; k++) NEAR(mu[i][0] * V[0][k] + mu[i][1] * V[1][k], l[i] * (mu[i][0] * W[0][k] + mu[i][1] * W[1][k]), "the fields are parallel with the returned ratio"); } END; }
// completeness: a candidate point t, ratio L, isolated, is returned
VE_ENTRY(pv_s1v2c) { double V[2][2], W[2][2], t = R("t", 0), L = R("L", 0), q = R("q", 0); int kind = (int)ve_param("kind", 0); mat<2, 2>("w", W); VE_ASSUME((t >= 0) & (t <= 1) & (L != 0)); nz(L);
  // V_0, V_1 with t V_0 + (1 - t) V_1 = L w(t): V_0 = L W_0 + (1 - t) d, V_1 = L W_1 - t d
  double d[2] = {q, R("q", 1)}; for (int k = 0; k < 2; k++) V[0][k] = L * W[0][k] + (1 - t) * d[k], V[1][k] = L * W[1][k] - t * d[k]; VE_ASSUME((d[0] != 0) | (d[1] != 0));
  if (kind == 0) { W[1][0] = W[0][0]; W[1][1] = W[0][1]; for (int k = 0; k < 2; k++) V[1][k] = L * W[1][k] - t * d[k]; }
  double c1 = W[0][0] * V[1][1] - W[0][1] * V[1][0] - (W[1][0] * V[0][1] - W[1][1] * V[0][0]); double dw = W[0][0] * W[1][1] - W[0][1] * W[1][0], dv = V[0][0] * V[1][1] - V[0][1] * V[1][0]; nz(dw); nz(dv); nz(c1); VE_ASSUME((c1 != 0) | (dw != 0));
  double l[2] = {0, 0}, mu[2][2]; int n = solve_pv_s1v2(V, W, l, mu); int found = 0; for (int i = 0; i < n; i++) found |= (int)(ve_near(l[i], L, 1e2) & ve_near(mu[i][0], t, 1e2)); VE_CHECK(found, "an isolated parallel point of the segment is returned"); END; }
// triangle, three-dimensional fields. kind 0: all w_i multiples of one direction (a linear characteristic polynomial), 1: w of rank two with fixed values, quadratic
VE_ENTRY(pv_s2v3) { int kind = (int)ve_param("kind", 0); double V[3][3], W[3][3]; 
  if (kind == 0) { static const double V1[3][3] = {{1, -3, 2}, {4, 1, -1}, {-2, 5, 3}}; double s[3] = {1, 2, 1}; int ax = (int)ve_param("ax", 0), fr = (int)ve_param("fr", 0); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { W[i][k] = k == ax ? s[i] : 0; V[i][k] = V1[i][k]; } for (int i = 0; i < 3; i++) if (fr == 0) V[i][ax] = R("v", i); else if (fr == 1) V[i][(ax + 1) % 3] = R("v", i); else V[i][i] = R("v", i); }
  else { static const double V0[4][3][3] = {{{1, 0, 2}, {-1, 3, 0}, {2, 1, -1}}, {{0, 0, 0}, {1, 1, 0}, {0, 2, 1}}, {{5, -1, 2}, {4, 4, 1}, {-2, 0, 3}}, {{1, 2, 3}, {4, 5, 6}, {7, 8, 10}}}, W0[3][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 0}}, {{1, 1, 0}, {0, 2, 0}, {1, 0, 0}}, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; int a = (int)ve_param("a", 0), b = (int)ve_param("b", 0); double x = R("x", 0), y = R("x", 1); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) V[i][k] = V0[a][i][k], W[i][k] = W0[b][i][k]; int p = (int)ve_param("p", 0), q = (int)ve_param("q", 5); V[p / 3][p % 3] += x; if (q >= 0) V[q / 3][q % 3] += y; VE_ASSUME((x >= -8) & (x <= 8) & (y >= -8) & (y <= 8)); }
  double *l = new double[3], (*mu)[3] = new double[3][3]; double T[4]; { double a[3][3], b[3][3]; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) a[k][i] = V[i][k], b[k][i] = W[i][k]; characteristic_polynomial_3x3(a, b, T); } for (int i = 0; i < 4; i++) nz(T[i]);
  int n = solve_pv_s2v3(V, W, l, mu); VE_CHECK((n >= 0) & (n <= 3), "number of solutions");
  for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < 3; k++) { s += mu[i][k]; VE_CHECK((mu[i][k] >= -E) & (mu[i][k] <= 1 + E), "inside the triangle"); } NEAR(s, 1, "coordinates sum to one"); for (int k = 0; k < 3; k++) { double v = 0, w = 0; for (int j = 0; j < 3; j++) v += mu[i][j] * V[j][k], w += mu[i][j] * W[j][k]; NEAR(v, l[i] * w, "the fields are parallel with the returned ratio"); } } END; }
// verification predicates
VE_ENTRY(pv_verify) { double V[3][2], W[3][2], mu[3] = {R("mu", 0), R("mu", 1), R("mu", 2)}, e = R("e", 0); VE_ASSUME(e >= 0); mat<3, 2>("v", V); mat<3, 2>("w", W); double v[2] = {0, 0}, w[2] = {0, 0}; int n = ve_param("tri", 1) ? 3 : 2; for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) v[k] += mu[i] * V[i][k], w[k] += mu[i] * W[i][k]; double c = v[0] * w[1] - v[1] * w[0]; bool ex = (c <= e) & (c >= -e); bool r = n == 3 ? verify_pv_s2v2(V, W, mu, e) : verify_pv_s1v2((const double (*)[2])V, W, mu, e); VE_CHECK((ve_native() & (std::fabs(std::fabs(c) - e) < 1e-7 * (1 + std::fabs(c)))) | (r == ex), "accepted exactly when the interpolated fields are parallel within the tolerance"); END; }
VE_ENTRY(pv_verify3) { double v[3], w[3], e = R("e", 0); for (int i = 0; i < 3; i++) v[i] = R("v", i), w[i] = R("w", i); VE_ASSUME(e >= 0); double c[3] = {v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]}; double s = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]; bool ex = s <= e * e; bool r = verify_pv_s0v3(v, w, e); VE_CHECK((ve_native() & (std::fabs(s - e * e) < 1e-7 * (1 + s))) | (r == ex), "accepted exactly when the fields are parallel within the tolerance"); END; }
VE_ENTRY(pv_verify3i) { double V[4][3], W[4][3], mu[4] = {R("mu", 0), R("mu", 1), R("mu", 2), R("mu", 3)}; mat<4, 3>("v", V); mat<4, 3>("w", W); int n = (int)ve_param("n", 4); double v[3] = {0, 0, 0}, w[3] = {0, 0, 0}; for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) v[k] += mu[i] * V[i][k], w[k] += mu[i] * W[i][k]; bool r = n == 2 ? verify_pv_s1v3((const double (*)[3])V, W, mu, 1e-3) : n == 3 ? verify_pv_s2v3((const double (*)[3])V, W, mu, 1e-3) : verify_pv_s3v3(V, W, mu, 1e-3), q = verify_pv_s0v3(v, w, 1e-3); VE_CHECK(ve_native() | (r == q), "the fields are interpolated at the given coordinates"); END; }
// characteristic polynomials: sum_i P_i(l) (V_i - l W_i) = 0 and sum P_i = Q (the determinant of the edge matrix)
VE_ENTRY(pv_chp3) { double V[4][3], W[4][3], Q[4] = {0}, P[4][4] = {{0}}, l = R("l", 0); mat<4, 3>("v", V); mat<4, 3>("w", W); characteristic_polynomials_pv_s3v3(V, W, Q, P); double p[4], q = 0; for (int i = 0; i < 4; i++) { p[i] = 0; for (int k = 3; k >= 0; k--) p[i] = p[i] * l + P[i][k]; } for (int k = 3; k >= 0; k--) q = q * l + Q[k]; NEAR(p[0] + p[1] + p[2] + p[3], q, "numerators sum to the denominator"); int c = (int)ve_param("c", 0); double s = 0; for (int i = 0; i < 4; i++) s += p[i] * (V[i][c] - l * W[i][c]); VE_CHECK(ve_near(s, 0, 1e6), "v - l w vanishes at the returned coordinates"); double M[3][3]; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) M[k][i] = (V[i][k] - V[3][k]) - l * (W[i][k] - W[3][k]); double d = M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]); VE_CHECK(ve_near(d, q, 1e6), "denominator is the determinant"); END; }
VE_ENTRY(pv_chp2) { double V[3][2], W[3][2], Q[3] = {0}, P[3][3] = {{0}}, l = R("l", 0); mat<3, 2>("v", V); mat<3, 2>("w", W); characteristic_polynomials_pv_s2v2(V, W, Q, P); double p[3], q = 0; for (int i = 0; i < 3; i++) { p[i] = 0; for (int k = 2; k >= 0; k--) p[i] = p[i] * l + P[i][k]; } for (int k = 2; k >= 0; k--) q = q * l + Q[k]; NEAR(p[0] + p[1] + p[2], q, "numerators sum to the denominator"); for (int c = 0; c < 2; c++) { double s = 0; for (int i = 0; i < 3; i++) s += p[i] * (V[i][c] - l * W[i][c]); VE_CHECK(ve_near(s, 0, 1e6), "v - l w vanishes at the returned coordinates"); } double M[2][2]; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) M[k][i] = (V[i][k] - V[2][k]) - l * (W[i][k] - W[2][k]); NEAR(M[0][0] * M[1][1] - M[0][1] * M[1][0], q, "denominator is the determinant"); END; }
VE_ENTRY(pv_chp2c) { double V[3][2], w[2] = {R("w", 0), R("w", 1)}, P[3][2] = {{0}}, l = R("l", 0); mat<3, 2>("v", V); double d = (V[0][0] - V[2][0]) * (V[1][1] - V[2][1]) - (V[1][0] - V[2][0]) * (V[0][1] - V[2][1]); VE_ASSUME((d > 1e-3) | (d < -1e-3)); characteristic_polynomials_pv_s2v2(V, w, P); double p[3]; for (int i = 0; i < 3; i++) p[i] = P[i][0] + P[i][1] * l; NEAR(p[0] + p[1] + p[2], 1, "coordinates sum to one"); for (int c = 0; c < 2; c++) { double s = -l * w[c]; for (int i = 0; i < 3; i++) s += p[i] * V[i][c]; VE_CHECK(ve_near(s, 0, 1e4), "v = l w at the returned coordinates"); } END; }
