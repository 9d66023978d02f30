// P26 interpolation on simplices and quads
#include "ve.h"
#include <ftk/numeric/linear_solver.hh>
#include <ftk/numeric/linear_interpolation.hh>
#include <ftk/numeric/bilinear_interpolation.hh>
#include <ftk/numeric/trilinear_interpolation.hh>
#include <ftk/numeric/inverse_linear_interpolation_solver.hh>
#include <ftk/numeric/inverse_bilinear_interpolation_solver.hh>
#include <ftk/numeric/gradient.hh>
#include <ftk/numeric/quadratic_interpolation.hh>
using namespace ftk;
static double R(const char *n, int i) { return ve_sym_real(n, i); }
#define NEAR(a, b, m) VE_CHECK(ve_near(a, b, 1e3), m)
#define END ve_reach("end")
template <int m> static double dot(const double *V, int stride, const double *mu) { double s = 0; for (int i = 0; i < m; i++) s += V[i * stride] * mu[i]; return s; }
template <int m, int n> static void mat(const char *nm, double A[m][n]) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = R(nm, i * n + j); }
// the interpolants are the weighted sums of the vertex values
VE_ENTRY(i_lerp) {
  double mu[4]; for (int i = 0; i < 4; i++) mu[i] = R("mu", i);
  double V[4][4]; mat<4, 4>("v", V);
  double s[4]; for (int i = 0; i < 4; i++) s[i] = V[i][0];
  NEAR(lerp_s1(s, mu), dot<2>(s, 1, mu), "lerp_s1"); NEAR(lerp_s2(s, mu), dot<3>(s, 1, mu), "lerp_s2"); NEAR(lerp_s3(s, mu), dot<4>(s, 1, mu), "lerp_s3");
  double V2[4][2], V3[4][3]; for (int i = 0; i < 4; i++) { for (int j = 0; j < 2; j++) V2[i][j] = V[i][j]; for (int j = 0; j < 3; j++) V3[i][j] = V[i][j]; }
  double v[4]; auto ck = [&](int m, int n, const char *msg) { for (int j = 0; j < n; j++) { double e = 0; for (int i = 0; i < m; i++) e += V[i][j] * mu[i]; NEAR(v[j], e, msg); } };
  lerp_s1v2(V2, mu, v); ck(2, 2, "lerp_s1v2"); lerp_s1v3(V3, mu, v); ck(2, 3, "lerp_s1v3"); lerp_s1v4(V, mu, v); ck(2, 4, "lerp_s1v4");
  lerp_s2v2(V2, mu, v); ck(3, 2, "lerp_s2v2"); lerp_s2v3(V3, mu, v); ck(3, 3, "lerp_s2v3"); lerp_s2v4(V, mu, v); ck(3, 4, "lerp_s2v4"); lerp_s2v<double, 3>(V3, mu, v); ck(3, 3, "lerp_s2v<3>"); lerp_s2v<double, 4>(V, mu, v); ck(3, 4, "lerp_s2v<4>");
  lerp_s3v3(V3, mu, v); ck(4, 3, "lerp_s3v3"); lerp_s3v4(V, mu, v); ck(4, 4, "lerp_s3v4");
  lerp_s1v2(V2, mu[0], v); for (int j = 0; j < 2; j++) NEAR(v[j], V[0][j] * mu[0] + V[1][j] * (1 - mu[0]), "lerp_s1v2 with one coordinate"); END; }
VE_ENTRY(i_lerpm) {
  double mu[4]; for (int i = 0; i < 4; i++) mu[i] = R("mu", i);
  double A[3][2][2], a[2][2]; for (int i = 0; i < 12; i++) (&A[0][0][0])[i] = R("a", i); lerp_s2m2x2(A, mu, a); for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) NEAR(a[j][k], A[0][j][k] * mu[0] + A[1][j][k] * mu[1] + A[2][j][k] * mu[2], "lerp_s2m2x2");
  double B[4][3][3], b[3][3]; for (int i = 0; i < 36; i++) (&B[0][0][0])[i] = R("b", i); lerp_s3m3x3(B, mu, b); for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) NEAR(b[j][k], B[0][j][k] * mu[0] + B[1][j][k] * mu[1] + B[2][j][k] * mu[2] + B[3][j][k] * mu[3], "lerp_s3m3x3");
  lerp_s2m3x3(B, mu, b); for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) NEAR(b[j][k], B[0][j][k] * mu[0] + B[1][j][k] * mu[1] + B[2][j][k] * mu[2], "lerp_s2m3x3"); END; }
VE_ENTRY(i_bilin) {
  double V[4][3]; mat<4, 3>("v", V); double F[12]; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) F[j * 4 + i] = V[i][j];
  double a = R("a", 0), b = R("b", 0), v[3], w[4] = {(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b};
  auto ck = [&](const char *m) { for (int j = 0; j < 3; j++) { double e = 0; for (int i = 0; i < 4; i++) e += w[i] * V[i][j]; NEAR(v[j], e, m); } };
  bilinear_interpolation3(V, a, b, v); ck("bilinear_interpolation3"); bilinear_interpolation3(F, a, b, v); ck("bilinear_interpolation3 flat"); bilinear_interpolation3_location(V, a, b, v); ck("bilinear_interpolation3_location"); bilinear_interpolation3_location(F, a, b, v); ck("bilinear_interpolation3_location flat");
  double T[8][3]; for (int i = 0; i < 24; i++) (&T[0][0])[i] = R("t", i); double c = R("c", 0); trilinear_interpolation3(T, a, b, c, v); for (int j = 0; j < 3; j++) { double e = 0; for (int i = 0; i < 8; i++) e += (i & 4 ? a : 1 - a) * (i & 2 ? b : 1 - b) * (i & 1 ? c : 1 - c) * T[i][j]; NEAR(v[j], e, "trilinear_interpolation3"); } END; }
static const double EPS = std::numeric_limits<double>::epsilon();
// success exactly when the zero lies in the (epsilon-widened) simplex
VE_ENTRY(i_inv11) { double f[2] = {R("f", 0), R("f", 1)}, mu[2]; VE_ASSUME(f[0] != f[1]); bool ok = inverse_lerp_s1v1(f, mu); NEAR(mu[0] + mu[1], 1, "sum of coordinates"); NEAR(lerp_s1(f, mu), 0, "interpolates to zero"); VE_CHECK(ok == ((mu[0] >= 0) & (mu[0] < 1)), "success iff inside"); VE_CHECK(ve_native() | (ok == ((f[1] == 0) | (f[0] * f[1] < 0))), "a zero inside the segment is a sign change or the second vertex"); END; }
VE_ENTRY(i_inv12) { double V[2][2]; mat<2, 2>("v", V); VE_ASSUME((V[0][0] != V[1][0]) | (V[0][1] != V[1][1])); double mu = 0; bool ok = inverse_lerp_s1v2(V, mu); double r[2]; lerp_s1v2(V, mu, r); NEAR(r[0] * (V[0][0] - V[1][0]) + r[1] * (V[0][1] - V[1][1]), 0, "closest point to zero on the line"); VE_CHECK(ok == ((mu >= 0) & (mu < 1)), "success iff inside"); END; }
VE_ENTRY(i_inv12z) { double d[2] = {R("d", 0), R("d", 1)}, t = R("t", 0), V[2][2]; VE_ASSUME((d[0] != 0) | (d[1] != 0)); for (int j = 0; j < 2; j++) V[1][j] = -t * d[j], V[0][j] = V[1][j] + d[j]; double mu = 0; bool ok = inverse_lerp_s1v2(V, mu); NEAR(mu, t, "a zero of the interpolant is found"); VE_CHECK(ve_native() | (ok == ((t >= 0) & (t < 1))), "success iff inside"); END; }
VE_ENTRY(i_inv22) { double V[3][2]; mat<3, 2>("v", V); double mu[3] = {0, 0, 0}; double det = (V[0][0] - V[2][0]) * (V[1][1] - V[2][1]) - (V[1][0] - V[2][0]) * (V[0][1] - V[2][1]); VE_ASSUME(det != 0); bool ok = inverse_lerp_s2v2(V, mu); double r[2]; lerp_s2v2(V, mu, r); NEAR(mu[0] + mu[1] + mu[2], 1, "sum of coordinates"); NEAR(r[0], 0, "interpolates to zero"); NEAR(r[1], 0, "interpolates to zero"); int in = 1; for (int i = 0; i < 3; i++) in &= (mu[i] >= -EPS) & (mu[i] <= 1 + EPS); VE_CHECK(ok == (bool)in, "success iff inside"); END; }
VE_ENTRY(i_inv22s) { double V[3][2]; mat<3, 2>("v", V); double mu[3] = {0, 0, 0}; double det = (V[0][0] - V[2][0]) * (V[1][1] - V[2][1]) - (V[1][0] - V[2][0]) * (V[0][1] - V[2][1]); VE_ASSUME(det == 0); bool ok = inverse_lerp_s2v2(V, mu); VE_CHECK(!ok, "no success on a degenerate triangle"); END; }
VE_ENTRY(i_inv23) { double V[3][3]; mat<3, 3>("v", V); double mu[3] = {0, 0, 0}, a[3], b[3]; for (int j = 0; j < 3; j++) a[j] = V[0][j] - V[2][j], b[j] = V[1][j] - V[2][j]; double aa = 0, ab = 0, bb = 0; for (int j = 0; j < 3; j++) aa += a[j] * a[j], ab += a[j] * b[j], bb += b[j] * b[j]; ve_lazy(1); ve_automerge(1); VE_ASSUME(aa * bb - ab * ab != 0); bool ok = inverse_lerp_s2v3(V, mu); double r[3]; lerp_s2v3(V, mu, r); NEAR(mu[0] + mu[1] + mu[2], 1, "sum of coordinates"); NEAR(r[0] * a[0] + r[1] * a[1] + r[2] * a[2], 0, "closest point to zero on the plane"); NEAR(r[0] * b[0] + r[1] * b[1] + r[2] * b[2], 0, "closest point to zero on the plane"); int in = 1; for (int i = 0; i < 3; i++) in &= (mu[i] >= -EPS) & (mu[i] <= 1 + EPS); VE_CHECK(ok == (bool)in, "success iff inside"); END; }
VE_ENTRY(i_inv230) { double V[3][3], W[3][3], V0[3]; mat<3, 3>("v", V); for (int i = 0; i < 3; i++) V0[i] = R("o", i); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) W[i][j] = V[i][j] + V0[j]; double mu[3] = {0, 0, 0}, a[3], b[3]; for (int j = 0; j < 3; j++) a[j] = V[0][j] - V[2][j], b[j] = V[1][j] - V[2][j]; double aa = 0, ab = 0, bb = 0; for (int j = 0; j < 3; j++) aa += a[j] * a[j], ab += a[j] * b[j], bb += b[j] * b[j]; ve_lazy(1); ve_automerge(1); VE_ASSUME(aa * bb - ab * ab != 0); inverse_lerp_s2v3_0(W, V0, mu); double r[3]; lerp_s2v3(V, mu, r); NEAR(mu[0] + mu[1] + mu[2], 1, "sum of coordinates"); NEAR(r[0] * a[0] + r[1] * a[1] + r[2] * a[2], 0, "closest point to the target on the plane"); NEAR(r[0] * b[0] + r[1] * b[1] + r[2] * b[2], 0, "closest point to the target on the plane"); END; }
VE_ENTRY(i_inv33) { double V[4][3]; mat<4, 3>("v", V); double mu[4] = {0, 0, 0, 0}, A[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = V[i][j] - V[3][j]; double det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); ve_lazy(1); ve_automerge(1); VE_ASSUME(det != 0); bool ok = inverse_lerp_s3v3(V, mu); double r[3]; lerp_s3v3(V, mu, r); NEAR(mu[0] + mu[1] + mu[2] + mu[3], 1, "sum of coordinates"); for (int j = 0; j < 3; j++) NEAR(r[j], 0, "interpolates to zero"); int in = 1; for (int i = 0; i < 4; i++) in &= (mu[i] >= -EPS) & (mu[i] < 1 + EPS); VE_CHECK(ok == (bool)in, "success iff inside"); END; }
VE_ENTRY(i_inv33s) { double V[4][3]; mat<4, 3>("v", V); double mu[4] = {0, 0, 0, 0}, A[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = V[i][j] - V[3][j]; ve_automerge(1); VE_ASSUME((A[0][0] == A[1][0]) & (A[0][1] == A[1][1]) & (A[0][2] == A[1][2])); bool ok = inverse_lerp_s3v3(V, mu); VE_CHECK(!ok, "no success when two vertex values coincide"); END; }
// integer version: the segment passes through zero strictly between its end points
VE_ENTRY(i_intinv) { long long V[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) V[i][j] = ve_sym_int("v", i * 2 + j, -1000000, 1000000); ve_automerge(1); bool ok = integer_inverse_lerp_s1v2(V); long long cr = V[0][0] * V[1][1] - V[0][1] * V[1][0], dt = V[0][0] * V[1][0] + V[0][1] * V[1][1]; VE_CHECK(ok == ((cr == 0) & (dt < 0)), "success iff zero lies strictly inside the segment"); END; }
// A x y + B x + C y + D for both components; kind selects which coefficients of the leading matrix {A0 C0; A1 C1} are free
VE_ENTRY(i_invbil) { int kind = (int)ve_param("kind", 0); double A[2], B[2], C[2], D[2]; for (int i = 0; i < 2; i++) A[i] = R("A", i), B[i] = R("B", i), C[i] = R("C", i), D[i] = R("D", i); if (kind == 0) A[0] = 1, A[1] = 0, C[0] = 0, C[1] = 1; else if (kind == 1) A[1] = 0, C[0] = 0; else if (kind == 2) A[1] = 0, D[0] = 0; else if (kind == 3) C[1] = 0; double u[4] = {D[0], D[0] + B[0], D[0] + A[0] + B[0] + C[0], D[0] + C[0]}, v[4] = {D[1], D[1] + B[1], D[1] + A[1] + B[1] + C[1], D[1] + C[1]}; double p[2][2] = {{0, 0}, {0, 0}};
  ve_lazy(1); VE_ASSUME(A[0] * C[1] - A[1] * C[0] != 0); VE_ASSUME(A[0] * B[1] - A[1] * B[0] != 0); int n = inverse_bilinear_interpolation(u, v, p); VE_CHECK((n >= 0) & (n <= 2), "number of roots");
  for (int i = 0; i < n; i++) { double x = p[i][0], y = p[i][1]; VE_CHECK((x >= 0) & (x <= 1) & (y >= 0) & (y <= 1), "inside the quad"); NEAR(A[0] * x * y + B[0] * x + C[0] * y + D[0], 0, "first component vanishes"); NEAR(A[1] * x * y + B[1] * x + C[1] * y + D[1], 0, "second component vanishes"); } END; }
// Gram determinant of the edge vectors: non-zero exactly for non-degenerate simplices
template <int n, int d> static double gram(const double X[n][d]) { double A[n][d], G[d][d]; for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) A[i][j] = X[(i + 1) % n][j] - X[i][j]; for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { G[i][j] = 0; for (int k = 0; k < n; k++) G[i][j] += A[k][i] * A[k][j]; } if (d == 2) return G[0][0] * G[1][1] - G[0][1] * G[1][0]; return G[0][0] * (G[1][1] * G[2][2] - G[1][2] * G[2][1]) - G[0][1] * (G[1][0] * G[2][2] - G[1][2] * G[2][0]) + G[0][2] * (G[1][0] * G[2][1] - G[1][1] * G[2][0]); }
// affine data f = g.x + c
VE_ENTRY(i_grad2) { double X[3][2]; mat<3, 2>("x", X); double g[2] = {R("g", 0), R("g", 1)}, c = R("c", 0), f[3], o[2]; ve_lazy(1); VE_ASSUME((gram<3, 2>(X)) != 0); for (int i = 0; i < 3; i++) f[i] = g[0] * X[i][0] + g[1] * X[i][1] + c; ve_lazy(1); ve_automerge(1); gradient_2dsimplex2(X, f, o); NEAR(o[0], g[0], "gradient x"); NEAR(o[1], g[1], "gradient y"); END; }
VE_ENTRY(i_jac2) { double X[3][2]; mat<3, 2>("x", X); double G[2][2]; mat<2, 2>("g", G); double c[2] = {R("c", 0), R("c", 1)}, f[3][2], o[2][2]; ve_lazy(1); VE_ASSUME((gram<3, 2>(X)) != 0); for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) f[i][k] = G[k][0] * X[i][0] + G[k][1] * X[i][1] + c[k]; ve_lazy(1); ve_automerge(1); jacobian_2dsimplex2(X, f, o);
  // entry [axis][component]
  for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) NEAR(o[j][k], G[k][j], "jacobian entry"); END; }
VE_ENTRY(i_jac3) { double X[4][3]; mat<4, 3>("x", X); double G[3][3]; mat<3, 3>("g", G); double c[3] = {R("c", 0), R("c", 1), R("c", 2)}, f[4][3], o[3][3]; ve_lazy(1); ve_automerge(1); VE_ASSUME((gram<4, 3>(X)) != 0); for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) { f[i][k] = c[k]; for (int j = 0; j < 3; j++) f[i][k] += G[k][j] * X[i][j]; } jacobian_3dsimplex(X, f, o); int k = ve_param("k", 0); for (int j = 0; j < 3; j++) NEAR(o[j][k], G[k][j], "jacobian entry"); END; }
// quadratic interpolation: nodes 0,1,2 vertices; 3,4,5 mid points of 01, 12, 02
VE_ENTRY(i_quadmu) { double f[6], Q[3][3]; for (int i = 0; i < 6; i++) f[i] = R("f", i); quadratic_interpolation_coefficient_simplex2(f, Q); const double M[6][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {.5, .5, 0}, {0, .5, .5}, {.5, 0, .5}}; for (int n = 0; n < 6; n++) { double s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += M[n][i] * Q[i][j] * M[n][j]; NEAR(s, f[n], "node values are reproduced"); } double mu[3] = {R("m", 0), R("m", 1), R("m", 2)}, g[3], gv[3][3]; quadratic_interpolation_gradient_simplex2(Q, mu, g); for (int i = 0; i < 3; i++) NEAR(g[i], 2 * (Q[i][0] * mu[0] + Q[i][1] * mu[1] + Q[i][2] * mu[2]), "gradient"); quadratic_interpolation_gradient_simplex2_vertices(Q, gv); for (int v = 0; v < 3; v++) for (int i = 0; i < 3; i++) NEAR(gv[v][i], 2 * Q[i][v], "gradient at a vertex"); END; }
VE_ENTRY(i_quadx) { double X[3][2]; mat<3, 2>("x", X); double det = (X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[2][0] - X[0][0]) * (X[1][1] - X[0][1]); VE_ASSUME(det != 0); double q[6]; for (int i = 0; i < 6; i++) q[i] = R("q", i); auto F = [&](double x, double y) { return q[0] * x * x + 2 * q[1] * x * y + q[2] * y * y + 2 * q[3] * x + 2 * q[4] * y + q[5]; }; double f[6]; const int E[3][2] = {{0, 1}, {1, 2}, {0, 2}}; for (int i = 0; i < 3; i++) f[i] = F(X[i][0], X[i][1]), f[3 + i] = F((X[E[i][0]][0] + X[E[i][1]][0]) / 2, (X[E[i][0]][1] + X[E[i][1]][1]) / 2); double Q[3][3]; ve_lazy(1); ve_automerge(1); quadratic_interpolation_coefficients(f, X, Q); const double W[3][3] = {{q[0], q[1], q[3]}, {q[1], q[2], q[4]}, {q[3], q[4], q[5]}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NEAR(Q[i][j], W[i][j], "quadratic fields are reproduced"); END; }
VE_ENTRY(i_quadd) { double Q[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) Q[i][j] = Q[j][i] = R("q", i * 3 + j); double x[2] = {R("x", 0), R("x", 1)}, y[2] = {R("x", 2), R("x", 3)}; double s[3] = {x[0], x[1], 1}, e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e += s[i] * Q[i][j] * s[j]; NEAR(quadratic_interpolation(Q, x), e, "evaluation"); double X[3][2] = {{x[0], x[1]}, {y[0], y[1]}, {x[0], y[1]}}, g[3][2], H[2][2]; quadratic_interpolation_gradient(Q, X, g); for (int i = 0; i < 3; i++) { NEAR(g[i][0], 2 * (Q[0][0] * X[i][0] + Q[0][1] * X[i][1] + Q[0][2]), "gradient"); NEAR(g[i][1], 2 * (Q[1][0] * X[i][0] + Q[1][1] * X[i][1] + Q[1][2]), "gradient"); } quadratic_interpolation_hessian(Q, H);
  // the gradient is affine and its differences are the Hessian
  for (int k = 0; k < 2; k++) NEAR(g[1][k] - g[0][k], H[k][0] * (y[0] - x[0]) + H[k][1] * (y[1] - x[1]), "Hessian is the derivative of the gradient"); END; }
