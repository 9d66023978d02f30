#include "ve.h"
#include <ftk/numeric/linear_solver.hh>
#include <ftk/numeric/linear_solver1.hh>
#include <ftk/numeric/matrix_inverse.hh>
#include <ftk/numeric/adjugate.hh>
using namespace ftk;
static double R(const char *n, int i) { return ve_sym_real(n, i); }
#define NEAR(a, b, m) VE_CHECK(ve_near(a, b), m)
template <int m, int n> static void mat(const char *nm, double A[m][n]) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = R(nm, i * n + j); }
// determinant from the definition (sum over permutations)
template <int n> static double det_ref(const double A[n][n]) { int p[n]; for (int i = 0; i < n; i++) p[i] = i; double d = 0; do { int inv = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inv += p[i] > p[j]; double t = inv % 2 ? -1 : 1; for (int i = 0; i < n; i++) t *= A[i][p[i]]; d += t; } while (std::next_permutation(p, p + n)); return d; }
VE_ENTRY(lin2) { double A[2][2], b[2], x[2]; mat<2, 2>("a", A); for (int i = 0; i < 2; i++) b[i] = R("b", i); double D = det_ref<2>(A); VE_ASSUME(D != 0); double d = solve_linear2x2(A, b, x); NEAR(d, D, "returned determinant"); for (int i = 0; i < 2; i++) NEAR(A[i][0] * x[0] + A[i][1] * x[1], b[i], "solution satisfies the equation"); ve_reach("end"); }
VE_ENTRY(lin2_sing) { double A[2][2], b[2], x[2]; mat<2, 2>("a", A); for (int i = 0; i < 2; i++) b[i] = R("b", i); VE_ASSUME(det_ref<2>(A) == 0); double d = solve_linear2x2(A, b, x); VE_CHECK(ve_near(d, 0), "singular system is reported by a zero determinant"); ve_reach("end"); }
VE_ENTRY(lin3) { double A[3][3], b[3], x[3]; mat<3, 3>("a", A); for (int i = 0; i < 3; i++) b[i] = R("b", i); double D = det_ref<3>(A); VE_ASSUME(D != 0); double d = solve_linear3x3(A, b, x); NEAR(d, D, "returned determinant"); for (int i = 0; i < 3; i++) NEAR(A[i][0] * x[0] + A[i][1] * x[1] + A[i][2] * x[2], b[i], "solution satisfies the equation"); ve_reach("end"); }
VE_ENTRY(lin3_sing) { double A[3][3], b[3], x[3]; mat<3, 3>("a", A); for (int i = 0; i < 3; i++) b[i] = R("b", i); VE_ASSUME(det_ref<3>(A) == 0); double d = solve_linear3x3(A, b, x); VE_CHECK(ve_near(d, 0), "singular system is reported by a zero determinant"); ve_reach("end"); }
VE_ENTRY(inv2) { double A[2][2], B[2][2]; mat<2, 2>("a", A); double D = det_ref<2>(A); VE_ASSUME(D != 0); double d = matrix_inverse2x2(A, B); NEAR(d, D, "returned determinant"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) NEAR(A[i][0] * B[0][j] + A[i][1] * B[1][j], i == j, "inverse multiplies to the identity"); ve_reach("end"); }
VE_ENTRY(inv3) { double A[3][3], B[3][3]; mat<3, 3>("a", A); double D = det_ref<3>(A); VE_ASSUME(D != 0); double d = matrix_inverse3x3(A, B); NEAR(d, D, "returned determinant"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NEAR(A[i][0] * B[0][j] + A[i][1] * B[1][j] + A[i][2] * B[2][j], i == j, "inverse multiplies to the identity"); ve_reach("end"); }
VE_ENTRY(inv4) { double A[4][4], B[4][4]; mat<4, 4>("a", A); double D = det_ref<4>(A); VE_ASSUME(D != 0); double d = matrix_inverse4(&A[0][0], &B[0][0]); NEAR(d, D, "returned determinant"); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double s = 0; for (int k = 0; k < 4; k++) s += A[i][k] * B[k][j]; NEAR(s, i == j, "inverse multiplies to the identity"); } ve_reach("end"); }
// least squares: the residual is orthogonal to the columns
VE_ENTRY(lsq32) { double A[3][2], b[3], x[2]; mat<3, 2>("a", A); for (int i = 0; i < 3; i++) b[i] = R("b", i); double G[2][2] = {}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 3; k++) G[i][j] += A[k][i] * A[k][j]; VE_ASSUME(det_ref<2>(G) != 0); ve_automerge(1); solve_least_square3x2(A, b, x); ve_automerge(0); for (int j = 0; j < 2; j++) { double s = 0, t = 0; for (int i = 0; i < 3; i++) { s += A[i][j] * (A[i][0] * x[0] + A[i][1] * x[1]); t += A[i][j] * b[i]; } NEAR(s, t, "normal equations hold"); } ve_reach("end"); }
VE_ENTRY(lsq32_2) { double A[3][2], B[3][2], x[2][2]; mat<3, 2>("a", A); mat<3, 2>("b", B); double G[2][2] = {}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 3; k++) G[i][j] += A[k][i] * A[k][j]; VE_ASSUME(det_ref<2>(G) != 0); ve_automerge(1); solve_least_square3x2_2(A, B, x); ve_automerge(0); for (int c = 0; c < 2; c++) for (int j = 0; j < 2; j++) { double s = 0, t = 0; for (int i = 0; i < 3; i++) { s += A[i][j] * (A[i][0] * x[0][c] + A[i][1] * x[1][c]); t += A[i][j] * B[i][c]; } NEAR(s, t, "normal equations hold"); } ve_reach("end"); }
VE_ENTRY(lsq43_3) { double A[4][3], B[4][3], x[3][3]; mat<4, 3>("a", A); mat<4, 3>("b", B); double G[3][3] = {}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 4; k++) G[i][j] += A[k][i] * A[k][j]; ve_lazy(1); VE_ASSUME(det_ref<3>(G) != 0); ve_automerge(1); solve_least_square4x3_3(A, B, x); ve_automerge(0); int c = (int)ve_param("c", 0); for (int j = 0; j < 3; j++) { double s = 0, t = 0; for (int i = 0; i < 4; i++) { s += A[i][j] * (A[i][0] * x[0][c] + A[i][1] * x[1][c] + A[i][2] * x[2][c]); t += A[i][j] * B[i][c]; } NEAR(s, t, "normal equations hold"); } ve_reach("end"); }
VE_ENTRY(lsq21) { double a[2], b[2], x; for (int i = 0; i < 2; i++) a[i] = R("a", i), b[i] = R("b", i); VE_ASSUME((a[0] != 0) | (a[1] != 0)); solve_least_square2x1(a, b, x); NEAR((a[0] * a[0] + a[1] * a[1]) * x, a[0] * b[0] + a[1] * b[1], "normal equation holds"); ve_reach("end"); }
VE_ENTRY(lsq31) { double a[3], b[3], x; for (int i = 0; i < 3; i++) a[i] = R("a", i), b[i] = R("b", i); VE_ASSUME((a[0] != 0) | (a[1] != 0) | (a[2] != 0)); solve_least_square3x1(a, b, x); NEAR((a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) * x, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "normal equation holds"); ve_reach("end"); }
VE_ENTRY(lin1) { double P[2] = {R("p", 0), R("p", 1)}, x[1] = {0}; const double e = std::numeric_limits<double>::epsilon(); int n = solve_linear_real1(P, x); VE_CHECK((n == 0) | (n == 1), "status"); if (n == 1) { NEAR(P[1] * x[0], -P[0], "root of the linear equation"); } else VE_CHECK((P[1] < e) & (-P[1] < e), "no solution only if the coefficient vanishes"); if (P[1] == 0) VE_CHECK(n == 0, "a constant has no reported root"); ve_reach("end"); }
VE_ENTRY(roots1) { double a = R("a", 0), b = R("b", 0); int n = number_roots_linear1(a, b); VE_CHECK((n == LINEAR_EQUATION_UNIQUE_SOLUTION) == (a != 0), "unique"); VE_CHECK((n == LINEAR_EQUATION_NO_SOLUTION) == ((a == 0) & (b != 0)), "none"); VE_CHECK((n == LINEAR_EQUATION_INFINITE_SOLUTIONS) == ((a == 0) & (b == 0)), "infinite"); ve_reach("end"); }
// Gaussian elimination with partial pivoting, n unknowns
template <int n> static void t_legs() { double A[n][n], M[n][n], b[n], c[n], x[n]; double *rows[n]; int idx[n]; mat<n, n>("a", A); for (int i = 0; i < n; i++) { rows[i] = M[i]; b[i] = c[i] = R("b", i); for (int j = 0; j < n; j++) M[i][j] = A[i][j]; } VE_ASSUME(det_ref<n>(A) != 0); legs<double>(n, rows, b, x, idx); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += A[i][j] * x[j]; NEAR(s, c[i], "solution satisfies the equation"); } ve_reach("end"); }
VE_ENTRY(legs2) { t_legs<2>(); } VE_ENTRY(legs3) { t_legs<3>(); }
