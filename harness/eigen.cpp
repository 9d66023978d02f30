// P25 eigen-solvers, P29 critical point types
#include "ve.h"
#include <ftk/numeric/critical_point_type.hh>
using namespace ftk;
static double R(const char *n, int i) { return ve_sym_real(n, i); }
#define NEAR(a, b, m) VE_CHECK(ve_near(a, b, 1e2), m)
#define END ve_reach("end")
template <int m, int n> static void mat(const char *nm, double A[m][n]) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = R(nm, i * n + j); }
static double D2(const double A[2][2]) { return A[0][0] * A[1][1] - A[0][1] * A[1][0]; }
static double D3(const double A[3][3]) { return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); }
static double AB(double x) { return x < 0 ? -x : x; }
VE_ENTRY(e_sym2) { double a = R("a", 0), b = R("a", 1), c = R("a", 2), e[2] = {0, 0}, f[2] = {0, 0}; double M[2][2] = {{a, b}, {b, c}}; solve_eigenvalues_symmetric2x2(a, b, c, e); NEAR(e[0] + e[1], a + c, "sum is the trace"); NEAR(e[0] * e[1], a * c - b * b, "product is the determinant"); for (int i = 0; i < 2; i++) NEAR((a - e[i]) * (c - e[i]) - b * b, 0, "characteristic equation"); VE_CHECK(ve_le(AB(e[1]), AB(e[0])), "ordered by magnitude"); solve_eigenvalues_symmetric2x2(M, f); for (int i = 0; i < 2; i++) NEAR(e[i], f[i], "matrix version"); END; }
// always-real: the two-norm of the imaginary part never appears
VE_ENTRY(e_gen2) { double M[2][2]; mat<2, 2>("m", M); double t = M[0][0] + M[1][1], d = D2(M), disc = t * t - 4 * d; std::complex<double> z[2]; double delta = solve_eigenvalues2x2(M, z); NEAR(delta, disc, "discriminant"); NEAR(z[0].real() + z[1].real(), t, "sum is the trace"); NEAR(z[0].imag() + z[1].imag(), 0, "sum is real"); NEAR(z[0].real() * z[1].real() - z[0].imag() * z[1].imag(), d, "product is the determinant"); NEAR(z[0].real() * z[1].imag() + z[0].imag() * z[1].real(), 0, "product is real"); if (delta >= 0) { NEAR(z[0].imag(), 0, "real pair"); NEAR(z[1].imag(), 0, "real pair"); } else { NEAR(z[0].real(), z[1].real(), "conjugate pair"); VE_CHECK(z[0].imag() != 0, "conjugate pair"); } END; }
static void nz(double x) { VE_ASSUME((x == 0) | (x >= 1e-6) | (x <= -1e-6)); }
VE_ENTRY(e_real2) { double M[2][2]; mat<2, 2>("m", M); double t = M[0][0] + M[1][1], d = D2(M), disc = t * t - 4 * d; nz(d); double e[2] = {0, 0}; int n = solve_eigenvalues2x2(M, e); VE_CHECK((n >= 0) & (n <= 2), "number of eigenvalues"); for (int i = 0; i < n; i++) NEAR((M[0][0] - e[i]) * (M[1][1] - e[i]) - M[0][1] * M[1][0], 0, "characteristic equation"); VE_CHECK((disc >= 0) == (n > 0), "real eigenvalues exist iff the discriminant is not negative"); if (disc > 0) VE_CHECK(n == 2, "two distinct eigenvalues"); END; }
VE_ENTRY(e_gen22) { double A[2][2], B[2][2]; mat<2, 2>("a", A); mat<2, 2>("b", B); nz(D2(A)); nz(D2(B)); double e[2] = {0, 0}; int n = solve_generalized_eigenvalues2x2(A, B, e); VE_CHECK((n >= 0) & (n <= 2), "number of eigenvalues"); for (int i = 0; i < n; i++) { double C[2][2]; for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) C[j][k] = A[j][k] - e[i] * B[j][k]; NEAR(D2(C), 0, "det(A - x B) = 0"); } END; }
// M = [p, q; r, ...] built so that l is an eigenvalue: (M - l) has rank <= 1
VE_ENTRY(e_vec2) { double u[2] = {R("u", 0), R("u", 1)}, v[2] = {R("v", 0), R("v", 1)}, l = R("l", 0); double M[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) M[i][j] = u[i] * v[j] + (i == j ? l : 0); VE_ASSUME((u[0] != 0) | (u[1] != 0)); VE_ASSUME((v[0] != 0) | (v[1] != 0)); double E[2] = {l, l}, X[2][2] = {{0, 0}, {0, 0}}; solve_eigenvectors2x2(M, 1, E, X); NEAR(X[0][0] * X[0][0] + X[0][1] * X[0][1], 1, "unit length"); for (int i = 0; i < 2; i++) NEAR(M[i][0] * X[0][0] + M[i][1] * X[0][1], l * X[0][i], "eigen equation"); END; }
VE_ENTRY(e_vec2i) { double l = R("l", 0); double M[2][2] = {{l, 0}, {0, l}}, E[2] = {l, l}, X[2][2] = {{0, 0}, {0, 0}}; solve_eigenvectors2x2(M, 2, E, X); for (int k = 0; k < 2; k++) { NEAR(X[k][0] * X[k][0] + X[k][1] * X[k][1], 1, "unit length"); for (int i = 0; i < 2; i++) NEAR(M[i][0] * X[k][0] + M[i][1] * X[k][1], l * X[k][i], "eigen equation"); } END; }
// M - l has rank two with kernel spanned by (x, y, 1 - x - y)
VE_ENTRY(e_vec3) { int kind = (int)ve_param("kind", 0); double x = R("x", 0), y = R("x", 1), l = R("l", 0), k[3] = {x, y, 1 - x - y}, p[3], q[3], r[3]; for (int j = 0; j < 3; j++) p[j] = q[j] = r[j] = 0;
  // rows orthogonal to the kernel
  double a[3] = {k[1], -k[0], 0}, b[3] = {0, k[2], -k[1]}, c[3] = {k[2], 0, -k[0]}; double s = R("s", 0), t = R("s", 1);
  for (int j = 0; j < 3; j++) { if (kind == 0) p[j] = s * a[j], q[j] = t * b[j]; else if (kind == 1) q[j] = s * a[j] + b[j], r[j] = t * c[j]; else p[j] = a[j], q[j] = s * c[j], r[j] = t * b[j]; }
  double M[3][3]; for (int j = 0; j < 3; j++) M[0][j] = p[j], M[1][j] = q[j], M[2][j] = r[j]; for (int i = 0; i < 3; i++) M[i][i] += l; double T[3][2], G[2][2] = {{0, 0}, {0, 0}}; for (int i = 0; i < 3; i++) { double m[3] = {M[i][0] - (i == 0 ? l : 0), M[i][1] - (i == 1 ? l : 0), M[i][2] - (i == 2 ? l : 0)}; T[i][0] = m[0] - m[2]; T[i][1] = m[1] - m[2]; } for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int h = 0; h < 3; h++) G[i][j] += T[h][i] * T[h][j]; ve_lazy(1); ve_automerge(1); VE_ASSUME(D2(G) != 0);
  double E[3] = {l, l, l}, X[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}; solve_eigenvectors3x3(M, 1, E, X); NEAR(X[0][0] * X[0][0] + X[0][1] * X[0][1] + X[0][2] * X[0][2], 1, "unit length"); for (int i = 0; i < 3; i++) NEAR(M[i][0] * X[0][0] + M[i][1] * X[0][1] + M[i][2] * X[0][2], l * X[0][i], "eigen equation"); END; }
// eigenvector with vanishing coordinate sum: M = l + u v^T with v = (1, 1, 1) + ... has kernel direction (1, -1, 0)
VE_ENTRY(e_vec3z) { double d = R("d", 0), l = R("l", 0), m = R("m", 0); VE_ASSUME((d != l) & (m != l) & (d != m)); double M[3][3] = {{(l + d) / 2, (d - l) / 2, 0}, {(d - l) / 2, (l + d) / 2, 0}, {0, 0, m}}; double E[3] = {l, l, l}, X[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}; solve_eigenvectors3x3(M, 1, E, X); for (int i = 0; i < 3; i++) NEAR(M[i][0] * X[0][0] + M[i][1] * X[0][1] + M[i][2] * X[0][2], l * X[0][i], "eigen equation for an eigenvector whose coordinates sum to zero"); END; }
// every symmetric matrix has three distinct eigenvalues (kind 0: negative q^3+r^2) or is p I +- u u^T (kind 1, 2: q^3+r^2 vanishes identically)
static void fam(int kind, double A[3][3]) { if (kind == 0) { double s = R("s", 0), k = R("s", 1); VE_ASSUME(k != 0); static const double B[4][3][3] = {{{1, 2, 3}, {2, -1, 1}, {3, 1, 4}}, {{4, -1, 2}, {-1, 4, 2}, {2, 2, 9}}, {{-3, 1, 0}, {1, -7, 2}, {0, 2, 1}}, {{0, 3, -5}, {3, 0, 1}, {-5, 1, 0}}}; int w = (int)ve_param("w", 0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = k * B[w][i][j] + (i == j ? s : 0); } else { double p = R("p", 0), u[3]; for (int i = 0; i < 3; i++) u[i] = R("u", i); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = (i == j ? p : 0) + (kind == 1 ? 1 : -1) * u[i] * u[j]; } }
VE_ENTRY(e_sym3) { int kind = (int)ve_param("kind", 0); double A[3][3]; fam(kind, A); double t = A[0][0] + A[1][1] + A[2][2], s = A[0][0] * A[1][1] + A[0][0] * A[2][2] + A[1][1] * A[2][2] - A[0][1] * A[0][1] - A[0][2] * A[0][2] - A[1][2] * A[1][2], D = D3(A); double q = (3 * s - t * t) / 9, r = (27 * D - 9 * t * s + 2 * t * t * t) / 54; ve_lazy(1); 
  if (kind == 0) VE_ASSUME(q * q * q + r * r < 0); ve_lazy(0);
  double x[3] = {0, 0, 0}; solve_eigenvalues_symmetric3x3(A, x); NEAR(x[0] + x[1] + x[2], t, "sum is the trace"); NEAR(x[0] * x[1] + x[0] * x[2] + x[1] * x[2], s, "second invariant"); NEAR(x[0] * x[1] * x[2], D, "product is the determinant"); for (int i = 0; i < 3; i++) NEAR(((x[i] - t) * x[i] + s) * x[i], D, "characteristic equation"); END; }
// ---- P29
VE_ENTRY(t_sym2) { double J[2][2]; mat<2, 2>("j", J); J[0][1] = J[1][0]; double d = D2(J), t = J[0][0] + J[1][1]; unsigned int ty = critical_point_type_2d(J, true); unsigned int ex = d < 0 ? CRITICAL_POINT_2D_SADDLE : d == 0 ? CRITICAL_POINT_2D_DEGENERATE : t > 0 ? CRITICAL_POINT_2D_MINIMUM : CRITICAL_POINT_2D_MAXIMUM; VE_CHECK(ty == ex, "type from the signs of the eigenvalues"); END; }
VE_ENTRY(t_gen2) { double J[2][2]; mat<2, 2>("j", J); double d = D2(J), t = J[0][0] + J[1][1], q = t * t - 4 * d; unsigned int ty = critical_point_type_2d(J, false); unsigned int ex; if (q < 0) ex = t < 0 ? CRITICAL_POINT_2D_ATTRACTING_FOCUS : t > 0 ? CRITICAL_POINT_2D_REPELLING_FOCUS : CRITICAL_POINT_2D_CENTER; else ex = d < 0 ? CRITICAL_POINT_2D_SADDLE : d == 0 ? CRITICAL_POINT_2D_DEGENERATE : t > 0 ? CRITICAL_POINT_2D_REPELLING : CRITICAL_POINT_2D_ATTRACTING; VE_CHECK(ty == ex, "type from the signs of the eigenvalues"); END; }
// three dimensions: number of positive and negative eigenvalues (as returned by the solver of P25)
VE_ENTRY(t_sym3) { double J[3][3]; int kind = (int)ve_param("kind", 0); fam(kind, J); double e[3] = {0, 0, 0}; solve_eigenvalues_symmetric3x3(J, e); unsigned int ty = critical_point_type_3d(J, true); int pos = 0, neg = 0; for (int i = 0; i < 3; i++) pos += e[i] > 0, neg += e[i] < 0; unsigned int ex = pos + neg < 3 ? CRITICAL_POINT_3D_DEGENERATE : pos == 3 ? CRITICAL_POINT_3D_MINIMUM : neg == 3 ? CRITICAL_POINT_3D_MAXIMUM : CRITICAL_POINT_3D_SADDLE; VE_CHECK(ty == ex, "type from the signs of the eigenvalues"); END; }
VE_ENTRY(t_names) { const int c2[] = {0, 1, 2, 4, 8, 16, 32, 64}; int dim = ve_choice("dim", 0, 2) + 2, i = ve_choice("i", 0, 8), j = ve_choice("j", 0, 8); bool s = ve_choice("scalar", 0, 2); std::string a = critical_point_type_to_string(dim, c2[i], s), b = critical_point_type_to_string(dim, c2[j], s); VE_CHECK(!a.empty(), "every type has a name"); VE_CHECK((a == b) == (i == j), "different types have different names"); std::string m = critical_point_type_to_string(dim, CRITICAL_POINT_2D_MAXIMUM, true), n = critical_point_type_to_string(dim, CRITICAL_POINT_2D_MINIMUM, true); VE_CHECK(m == "max", "maximum"); VE_CHECK(n == "min", "minimum"); VE_CHECK(critical_point_type_to_string(dim, CRITICAL_POINT_2D_SADDLE, s) == "saddle", "saddle"); END; }
