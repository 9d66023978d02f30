#include "ve.h"
#include <ftk/numeric/cond.hh>
#include <ftk/numeric/det.hh>
#include <ftk/numeric/trace.hh>
#include <ftk/numeric/transpose.hh>
#include <ftk/numeric/adjugate.hh>
#include <ftk/numeric/matrix_multiplication.hh>
#include <ftk/numeric/matrix_norm.hh>
#include <ftk/numeric/matrix_decomposition.hh>
#include <ftk/numeric/matrix_addition.hh>
#include <ftk/numeric/cross_product.hh>
#include <ftk/numeric/inner_product.hh>
#include <ftk/numeric/vector_dot_product.hh>
#include <ftk/numeric/vector_norm.hh>
#include <ftk/numeric/vector_normalization.hh>
#include <ftk/numeric/vector_assignment.hh>
#include <ftk/numeric/characteristic_polynomial.hh>
#include <ftk/numeric/symmetric_matrix.hh>
#include <ftk/numeric/eye.hh>
using namespace ftk;
static double R(const char *n, int i) { return ve_sym_real(n, i); }
#define NEAR(a, b, m) VE_CHECK(ve_near(a, b, 1e3), m)
template <int m, int n> static void mat(const char *nm, double A[m][n]) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = R(nm, i * n + j); }
template <int n> static double det_ref(const double A[n][n]) { int p[n]; for (int i = 0; i < n; i++) p[i] = i; double d = 0; do { int inv = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inv += p[i] > p[j]; double t = inv % 2 ? -1 : 1; for (int i = 0; i < n; i++) t *= A[i][p[i]]; d += t; } while (std::next_permutation(p, p + n)); return d; }
#define END ve_reach("end")
VE_ENTRY(m_det) { double A[4][4], B[3][3], C[2][2]; mat<4, 4>("a", A); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) B[i][j] = A[i][j]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) C[i][j] = A[i][j];
  NEAR(det2(C), det_ref<2>(C), "det2"); NEAR(det2(C[0][0], C[0][1], C[1][0], C[1][1]), det_ref<2>(C), "det2 of entries"); NEAR(det3(B), det_ref<3>(B), "det3"); NEAR(det4(A), det_ref<4>(A), "det4");
  NEAR(trace2(C), C[0][0] + C[1][1], "trace2"); NEAR(trace3(B), B[0][0] + B[1][1] + B[2][2], "trace3"); NEAR((trace<double, 4>(A)), A[0][0] + A[1][1] + A[2][2] + A[3][3], "trace<4>"); END; }
VE_ENTRY(m_detprod) { double A[3][3], B[3][3], C[3][3]; mat<3, 3>("a", A); mat<3, 3>("b", B); matrix3x3_matrix3x3_multiplication(A, B, C); NEAR(det3(C), det3(A) * det3(B), "determinant of a product"); double a[2][2], b[2][2], c[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a[i][j] = A[i][j], b[i][j] = B[i][j]; matrix2x2_matrix2x2_multiplication(a, b, c); NEAR(det2(c), det2(a) * det2(b), "determinant of a product"); END; }
VE_ENTRY(m_transpose) {
  { double A[2][2], B[2][2]; mat<2, 2>("a", A); transpose2x2(A, B); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) NEAR(B[i][j], A[j][i], "transpose2x2"); transpose2x2(&B[0][0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) NEAR(B[i][j], A[i][j], "transpose2x2 in place"); }
  { double A[3][3], B[3][3], b[9], c[9]; mat<3, 3>("b", A); transpose3x3(A, B); transpose3x3(&A[0][0], b); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { NEAR(B[i][j], A[j][i], "transpose3x3"); NEAR(b[i * 3 + j], A[j][i], "transpose3x3 flat"); c[i * 3 + j] = A[i][j]; } transpose3x3(B); transpose3x3(c); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { NEAR(B[i][j], A[i][j], "transpose3x3 in place"); NEAR(c[i * 3 + j], A[j][i], "transpose3x3 flat in place"); } transpose<double, 3>(B); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NEAR(B[i][j], A[j][i], "transpose<3> in place"); }
  { double m[16], o[16]; for (int i = 0; i < 16; i++) m[i] = o[i] = R("c", i); transpose4x4(m); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) NEAR(m[i * 4 + j], o[j * 4 + i], "transpose4x4"); }
  { double A[3][2], B[2][3], C[3][2]; mat<3, 2>("d", A); transpose3x2(A, B); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) NEAR(B[i][j], A[j][i], "transpose3x2"); transpose2x3(B, C); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) NEAR(C[i][j], A[i][j], "transpose2x3"); transpose<double, 3, 2>(A, B); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) NEAR(B[i][j], A[j][i], "transpose<3,2>"); }
  { double A[4][3], B[3][4]; mat<4, 3>("e", A); transpose4x3(A, B); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) NEAR(B[i][j], A[j][i], "transpose4x3"); } END; }
template <int m, int k, int n> static void prod_ok(const double A[m][k], const double B[k][n], const double C[m][n], const char *msg) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int l = 0; l < k; l++) s += A[i][l] * B[l][j]; NEAR(C[i][j], s, msg); } }
VE_ENTRY(m_product) {
  double A[4][4], B[4][4]; mat<4, 4>("a", A); mat<4, 4>("b", B);
  { double a[2][2], b[2][2], c[2][2], v[2], x[2]; for (int i = 0; i < 2; i++) { v[i] = B[3][i]; for (int j = 0; j < 2; j++) a[i][j] = A[i][j], b[i][j] = B[i][j]; } matrix2x2_matrix2x2_multiplication(a, b, c); prod_ok<2, 2, 2>(a, b, c, "2x2*2x2"); matrix2x2_vector2_multiplication(a, v, x); for (int i = 0; i < 2; i++) NEAR(x[i], a[i][0] * v[0] + a[i][1] * v[1], "2x2*2"); }
  { double a[2][2], b[2][3], c[2][3], v[3], x[2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a[i][j] = A[i][j]; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) b[i][j] = B[i][j]; for (int j = 0; j < 3; j++) v[j] = A[3][j]; matrix2x2_matrix2x3_multiplication(a, b, c); prod_ok<2, 2, 3>(a, b, c, "2x2*2x3"); matrix2x3_vector3_multiplication(b, v, x); for (int i = 0; i < 2; i++) NEAR(x[i], b[i][0] * v[0] + b[i][1] * v[1] + b[i][2] * v[2], "2x3*3"); }
  { double a[3][3], b[3][3], c[3][3], d[9], v[3], x[3], y[3], e[9]; for (int i = 0; i < 3; i++) { v[i] = A[3][i]; for (int j = 0; j < 3; j++) a[i][j] = A[i][j], b[i][j] = B[i][j]; } matrix3x3_matrix3x3_multiplication(a, b, c); prod_ok<3, 3, 3>(a, b, c, "3x3*3x3"); matrix3x3_matrix3x3_multiplication(&a[0][0], &b[0][0], d); prod_ok<3, 3, 3>(a, b, (double(*)[3])d, "3x3*3x3 flat"); matrix3x3_vector3_multiplication(a, v, x); matrix3x3_vector3_multiplication(&a[0][0], v, y); for (int i = 0; i < 3; i++) { double s = a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2]; NEAR(x[i], s, "3x3*3"); NEAR(y[i], s, "3x3*3 flat"); } matrix3x3_scalar_multiplication(&a[0][0], v[0], e); for (int i = 0; i < 9; i++) NEAR(e[i], a[i / 3][i % 3] * v[0], "3x3*scalar"); }
  { double a[3][3], b[3][4], c[3][4]; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) a[i][j] = A[i][j]; for (int j = 0; j < 4; j++) b[i][j] = B[i][j]; } matrix3x3_matrix3x4_multiplication(a, b, c); prod_ok<3, 3, 4>(a, b, c, "3x3*3x4"); }
  { double a[2][3], b[3][2], c[2][2]; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) a[j][i] = A[j][i], b[i][j] = B[i][j]; matrix2x3_matrix3x2_multiplication(a, b, c); prod_ok<2, 3, 2>(a, b, c, "2x3*3x2"); }
  { double a[3][4], b[4][3], c[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) a[i][j] = A[i][j], b[j][i] = B[j][i]; matrix3x4_matrix4x3_multiplication(a, b, c); prod_ok<3, 4, 3>(a, b, c, "3x4*4x3"); } END; }
VE_ENTRY(m_vec) { double a[3], b[3], c[3]; for (int i = 0; i < 3; i++) a[i] = R("a", i), b[i] = R("b", i); cross_product(a, b, c); double cc = c[0] * c[0] + c[1] * c[1] + c[2] * c[2], M[3][3];
  for (int i = 0; i < 3; i++) M[0][i] = a[i], M[1][i] = b[i], M[2][i] = c[i]; NEAR(a[0] * c[0] + a[1] * c[1] + a[2] * c[2], 0, "orthogonal"); NEAR(b[0] * c[0] + b[1] * c[1] + b[2] * c[2], 0, "orthogonal"); NEAR(det_ref<3>(M), cc, "right handed"); double ab = a[0] * b[0] + a[1] * b[1] + a[2] * b[2], aa = a[0] * a[0] + a[1] * a[1] + a[2] * a[2], bb = b[0] * b[0] + b[1] * b[1] + b[2] * b[2]; NEAR(cc, aa * bb - ab * ab, "Lagrange identity");
  NEAR(cross_product2(a, b), a[0] * b[1] - a[1] * b[0], "2D cross"); NEAR(inner_product3(a, b), ab, "inner3"); NEAR(inner_product2(a, b), a[0] * b[0] + a[1] * b[1], "inner2"); NEAR(vector_dot_product3(a, b), ab, "dot3"); NEAR(vector_dot_product2(a, b), a[0] * b[0] + a[1] * b[1], "dot2");
  double x[3], s = R("s", 0), t = R("s", 1); vector_assign_scalar_multiplication3(x, s, a); for (int i = 0; i < 3; i++) NEAR(x[i], s * a[i], "scalar multiple"); vector_assign_addition3(x, a, b); for (int i = 0; i < 3; i++) NEAR(x[i], a[i] + b[i], "sum"); vector_assign_subtraction3(x, a, b); for (int i = 0; i < 3; i++) NEAR(x[i], a[i] - b[i], "difference"); vector_assign_weighted_addition3(x, s, a, t, b); for (int i = 0; i < 3; i++) NEAR(x[i], s * a[i] + t * b[i], "weighted sum"); vector_assign3(x, a); for (int i = 0; i < 3; i++) NEAR(x[i], a[i], "copy"); vector_assign3(x, s); for (int i = 0; i < 3; i++) NEAR(x[i], s, "fill"); END; }
VE_ENTRY(m_adj) { double A[3][3], B[3][3], C[3][3]; mat<3, 3>("a", A); adjugate3(A, B); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += A[i][k] * B[k][j]; NEAR(s, i == j ? det_ref<3>(A) : 0, "M adj(M) = det(M) I"); } (void)C; double a[2][2], b[2][2]; mat<2, 2>("b", a); adjugate2(a, b); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) NEAR(a[i][0] * b[0][j] + a[i][1] * b[1][j], i == j ? det_ref<2>(a) : 0, "M adj(M) = det(M) I"); END; }
VE_ENTRY(m_decomp) { double M[3][3], S[3][3], A[3][3], N[3][3], D[3][3]; mat<3, 3>("a", M); matrix_symmetric_decomposition_3x3(M, S); matrix_antisymmetric_decomposition_3x3(M, A); memcpy(N, M, sizeof N); make_symmetric3x3(N);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { NEAR(S[i][j], S[j][i], "symmetric"); NEAR(A[i][j], -A[j][i], "antisymmetric"); NEAR(S[i][j] + A[i][j], M[i][j], "parts add up"); NEAR(N[i][j], S[i][j], "make_symmetric is the symmetric part"); }
  double m[2][2] = {{M[0][0], M[0][1]}, {M[1][0], M[1][1]}}, n[2][2]; memcpy(n, m, sizeof n); make_symmetric2x2(m); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) NEAR(2 * m[i][j], n[i][j] + n[j][i], "make_symmetric2x2");
  double P[3][3], Q[3][3]; matrix_addition3x3(M, S, P); matrix_subtraction3x3(M, S, Q); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { NEAR(P[i][j], M[i][j] + S[i][j], "sum"); NEAR(Q[i][j], M[i][j] - S[i][j], "difference"); } END; }
static double A_(double x) { return x < 0 ? -x : x; } static double X_(double a, double b) { return a < b ? b : a; }
VE_ENTRY(m_norm2) { ve_automerge(1); double m[2][2]; mat<2, 2>("a", m); NEAR(matrix_1norm_real2x2(m), X_(A_(m[0][0]) + A_(m[1][0]), A_(m[0][1]) + A_(m[1][1])), "1-norm"); NEAR(matrix_inf_norm_real2x2(m), X_(A_(m[0][0]) + A_(m[0][1]), A_(m[1][0]) + A_(m[1][1])), "inf-norm"); double q = 0; for (int i = 0; i < 4; i++) q += m[i / 2][i % 2] * m[i / 2][i % 2]; double f = matrix_frobenius_norm_real2x2(m); VE_CHECK((ve_near(f, q) | (ve_near(f * f, q) & (f >= 0))), "Frobenius norm (or its square)"); ve_automerge(0); END; }
VE_ENTRY(m_norm3) { ve_automerge(1); double m[3][3], a[3][2], b[2][3]; mat<3, 3>("a", m); double c[3]; for (int j = 0; j < 3; j++) c[j] = A_(m[0][j]) + A_(m[1][j]) + A_(m[2][j]); NEAR(matrix_1norm_real3x3(m), X_(X_(c[0], c[1]), c[2]), "1-norm"); double q = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { a[i][j] = m[i][j]; b[j][i] = m[i][j]; q += m[i][j] * m[i][j]; } double f = matrix_frobenius_norm_real3x2(a), g = matrix_frobenius_norm_real2x3(b); VE_CHECK((ve_near(f, q) | (ve_near(f * f, q) & (f >= 0))), "Frobenius norm (or its square)"); VE_CHECK((ve_near(g, q) | (ve_near(g * g, q) & (g >= 0))), "Frobenius norm (or its square)"); ve_automerge(0); END; }
VE_ENTRY(m_vnorm) { double v[4], w[4]; for (int i = 0; i < 4; i++) v[i] = R("v", i), w[i] = R("w", i); double s2 = v[0] * v[0] + v[1] * v[1], s3 = s2 + v[2] * v[2], s4 = s3 + v[3] * v[3], n; n = vector_2norm_2(v); VE_CHECK(ve_near(n * n, s2) & (n >= 0), "norm2"); n = vector_2norm_3(v); VE_CHECK(ve_near(n * n, s3) & (n >= 0), "norm3"); n = vector_2norm_4(v); VE_CHECK(ve_near(n * n, s4) & (n >= 0), "norm4"); NEAR((vector_2norm2<3, double>(v)), s3, "squared norm"); double d2 = 0, d3; for (int i = 0; i < 2; i++) d2 += (v[i] - w[i]) * (v[i] - w[i]); d3 = d2 + (v[2] - w[2]) * (v[2] - w[2]); n = vector_dist_2norm_2(v, w); NEAR(n * n, d2, "distance"); n = vector_dist_2norm_3(v, w); NEAR(n * n, d3, "distance"); NEAR((vector_dist_2norm2<3, double>(v, w)), d3, "squared distance"); END; }
template <int n> static void t_normalize() { double v[n], w[n], u[n]; for (int i = 0; i < n; i++) u[i] = v[i] = R("v", i); int nz = 0; double q = 0; for (int i = 0; i < n; i++) nz |= v[i] != 0, q += v[i] * v[i]; VE_ASSUME(nz); double r = vector_normalization2<n, double>((const double *)v, w), s = vector_normalization2<n, double>(v); double k = 0; VE_CHECK(ve_near(r * r, q) & (r > 0) & ve_near(s, r), "returned norm"); for (int i = 0; i < n; i++) { k += w[i] * w[i]; NEAR(w[i] * r, u[i], "direction kept"); NEAR(v[i], w[i], "in place agrees"); } NEAR(k, 1, "unit length"); END; }
VE_ENTRY(m_unit2) { t_normalize<2>(); } VE_ENTRY(m_unit3) { t_normalize<3>(); }
VE_ENTRY(m_charpoly) { double A[3][3], B[3][3], M[3][3], P[4], l = R("l", 0); mat<3, 3>("a", A); mat<3, 3>("b", B);
  characteristic_polynomial_3x3(A, P); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = (i == j ? l : 0) - A[i][j]; NEAR(P[0] + l * (P[1] + l * (P[2] + l * P[3])), det_ref<3>(M), "characteristic polynomial 3x3");
  characteristic_polynomial_3x3(A, B, P); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = A[i][j] - l * B[i][j]; NEAR(P[0] + l * (P[1] + l * (P[2] + l * P[3])), det_ref<3>(M), "generalized characteristic polynomial 3x3");
  double a[2][2], b[2][2], m[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a[i][j] = A[i][j], b[i][j] = B[i][j];
  characteristic_polynomial_2x2(a, P); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m[i][j] = (i == j ? l : 0) - a[i][j]; NEAR(P[0] + l * (P[1] + l * P[2]), det_ref<2>(m), "characteristic polynomial 2x2");
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m[i][j] = a[i][j] - l * b[i][j]; characteristic_polynomial_2x2(a, b, P); NEAR(P[0] + l * (P[1] + l * P[2]), det_ref<2>(m), "generalized characteristic polynomial 2x2"); characteristic_polynomial_2x2(a[0][0], a[0][1], a[1][0], a[1][1], b[0][0], b[0][1], b[1][0], b[1][1], P); NEAR(P[0] + l * (P[1] + l * P[2]), det_ref<2>(m), "generalized characteristic polynomial 2x2 of entries"); END; }
