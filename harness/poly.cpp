#include "ve.h"
#include <map>
#include <complex>
#include <ftk/numeric/polynomial.hh>
#include <ftk/numeric/quadratic_solver.hh>
#include <ftk/numeric/cubic_solver.hh>
using namespace ftk;
static double R(const char *n, int i) { return ve_sym_real(n, i); }
#define NEAR(a, b, m) VE_CHECK(ve_near(a, b, 1e3), m)
#define END ve_reach("end")
static double ev(const double *P, int m, double x) { double y = 0; for (int i = m; i >= 0; i--) y = y * x + P[i]; return y; }
VE_ENTRY(p_eval) { double P[6], x = R("x", 0); int m = ve_choice("m", 0, 6); for (int i = 0; i <= m; i++) P[i] = R("p", i); NEAR(polynomial_evaluate(P, m, x), ev(P, m, x), "evaluation"); if (m > 0) { double D[6]; polynomial_derivative(P, m, D); double d = 0, xp = 1; for (int i = 0; i < m; i++) { NEAR(D[i], (i + 1) * P[i + 1], "derivative"); d += (i + 1) * P[i + 1] * xp; xp *= x; } NEAR(polynomial_evaluate_derivative(P, m, x), d, "derivative value"); } double Q[6]; polynomial_copy(P, m, Q); for (int i = 0; i <= m; i++) NEAR(Q[i], P[i], "copy"); polynomial_scalar_multiplication(Q, m, x); for (int i = 0; i <= m; i++) NEAR(Q[i], P[i] * x, "scalar multiple"); END; }
VE_ENTRY(p_ring) { double P[4], Q[4], S[4], M[8], x = R("x", 0); int m = ve_choice("m", 0, 4), n = ve_choice("n", 0, 4); for (int i = 0; i <= m; i++) P[i] = R("p", i); for (int i = 0; i <= n; i++) Q[i] = R("q", i); int k = m > n ? m : n; double p = ev(P, m, x), q = ev(Q, n, x);
  polynomial_addition(P, m, Q, n, S); NEAR(ev(S, k, x), p + q, "sum"); polynomial_subtraction(P, m, Q, n, S); NEAR(ev(S, k, x), p - q, "difference"); polynomial_multiplication(P, m, Q, n, M); NEAR(ev(M, m + n, x), p * q, "product"); if (m >= n) { double A[4], B[4]; polynomial_copy(P, m, A); polynomial_copy(P, m, B); polynomial_addition_in_place(A, m, Q, n); polynomial_subtraction_in_place(B, m, Q, n); NEAR(ev(A, m, x), p + q, "sum in place"); NEAR(ev(B, m, x), p - q, "difference in place"); } END; }
VE_ENTRY(p_zero) { double P[4]; for (int i = 0; i < 4; i++) P[i] = R("p", i); const double e = std::numeric_limits<double>::epsilon(); int z = 1, c = 1; for (int i = 0; i < 4; i++) { int s = (P[i] <= e) & (-P[i] <= e); z &= s; if (i) c &= s; } VE_CHECK(polynomial_equals_to_zero(P, 3) == (z != 0), "zero test"); VE_CHECK(polynomial_equals_to_constant(P, 3) == (c != 0), "constant test"); END; }
static const double EPS = std::numeric_limits<double>::epsilon();
// real roots of a polynomial of degree <= 2; coefficients are either 0 or clearly away from 0
static void inputs(double *P) { for (int i = 0; i < 3; i++) { P[i] = R("p", i); VE_ASSUME((P[i] == 0) | (P[i] > 1e-6) | (P[i] < -1e-6)); } }
VE_ENTRY(p_quad) { double P[3]; inputs(P); VE_ASSUME((P[2] != 0) | (P[1] != 0)); double *x = new double[2]; x[0] = x[1] = 0; int n = solve_quadratic_real(P, x); VE_CHECK((n >= 0) & (n <= 2), "number of roots");
  for (int i = 0; i < n; i++) NEAR(ev(P, 2, x[i]), 0, "every returned value is a root"); double y = R("y", 0); if (n == 2) VE_CHECK(!ve_near(x[0], x[1]) | (P[1] == 0), "returned roots differ");
  { int f = ve_native() | (ev(P, 2, y) != 0); for (int i = 0; i < n; i++) f |= y == x[i]; VE_CHECK(f, "every root is returned"); } if (n == 2 && P[2] != 0 && P[0] != 0) NEAR(x[0] + x[1], -P[1] / P[2], "sum of the roots"); double d = P[1] * P[1] - 4 * P[2] * P[0]; int expect = P[2] == 0 ? 1 : d > 0 ? 2 : d == 0 ? 1 : 0; if (!(P[2] != 0 && P[0] == 0 && P[1] == 0)) VE_CHECK(n == expect, "number of distinct real roots"); delete[] x; END; }
VE_ENTRY(p_quadc) { double P[3]; for (int i = 0; i < 3; i++) P[i] = R("p", i); VE_ASSUME(P[2] != 0); VE_ASSUME(P[1] * P[1] - 4 * P[2] * P[0] >= 0); std::complex<double> x[2]; double d = solve_quadratic(P, x); NEAR(d, P[1] * P[1] - 4 * P[2] * P[0], "discriminant"); for (int i = 0; i < 2; i++) { NEAR(x[i].imag(), 0, "real"); NEAR(ev(P, 2, x[i].real()), 0, "root"); } NEAR((x[0].real() + x[1].real()) * P[2], -P[1], "sum"); NEAR(x[0].real() * x[1].real() * P[2], P[0], "product"); END; }
VE_ENTRY(p_quadm) { double P[3]; inputs(P); VE_ASSUME((P[2] != 0) | (P[1] != 0)); auto r = solve_quadratic_real_multiplicity(P); double y = R("y", 0); int tot = 0, f = 0; for (auto &kv : r) { NEAR(ev(P, 2, kv.first), 0, "every returned value is a root"); VE_CHECK(kv.second > 0, "positive multiplicity"); tot += kv.second; f |= y == kv.first; } VE_CHECK(f | ve_native() | (ev(P, 2, y) != 0), "every root is returned"); double d = P[1] * P[1] - 4 * P[2] * P[0]; int deg = P[2] == 0 ? 1 : d >= 0 ? 2 : 0; VE_CHECK(tot == deg, "multiplicities add up"); END; }
// cubic: discriminant and the factor-out paths
VE_ENTRY(p_cubic_deg) { double P[4]; P[3] = 0; inputs(P); VE_ASSUME((P[2] != 0) | (P[1] != 0)); VE_ASSUME((P[2] == 0) | (P[0] != 0)); double *x = new double[3]; x[0] = x[1] = x[2] = 0; int n = solve_cubic_real(P, x); double y[2] = {0, 0}; int k = solve_quadratic_real(P, y); VE_CHECK(n == k, "degrades to the quadratic"); for (int i = 0; i < n; i++) NEAR(x[i], y[i], "degrades to the quadratic"); delete[] x; END; }
VE_ENTRY(p_cubic_zero) { double P[4]; P[0] = 0; double Q[3]; inputs(Q); for (int i = 0; i < 3; i++) P[i + 1] = Q[i]; VE_ASSUME(Q[2] != 0); double *x = new double[3]; x[0] = x[1] = x[2] = 0; int n = solve_cubic_real(P, x); VE_CHECK((n >= 1) & (n <= 3), "number of roots"); int z = 0; for (int i = 0; i < n; i++) { NEAR(ev(P, 3, x[i]), 0, "every returned value is a root"); z |= x[i] == 0; } VE_CHECK(z, "zero is returned"); delete[] x; END; }
VE_ENTRY(p_cubic_disc) { double a = R("a", 0), r[3]; for (int i = 0; i < 3; i++) r[i] = R("r", i); double P[4] = {-a * r[0] * r[1] * r[2], a * (r[0] * r[1] + r[0] * r[2] + r[1] * r[2]), -a * (r[0] + r[1] + r[2]), a}; double v = (r[0] - r[1]) * (r[0] - r[2]) * (r[1] - r[2]); NEAR(cubic_discriminant(P), a * a * a * a * v * v, "discriminant is the squared Vandermonde product"); END; }
VE_ENTRY(p_cubic3) { double P[4]; inputs(P); P[3] = R("p", 3); VE_ASSUME((P[3] >= 1e-6) | (P[3] <= -1e-6)); VE_ASSUME(P[0] != 0); double x[3] = {0, 0, 0}; int n = solve_cubic_real(P, x); VE_CHECK((n >= 1) & (n <= 3), "number of roots"); for (int i = 0; i < n; i++) NEAR(ev(P, 3, x[i]), 0, "every returned value is a root"); END; }
VE_ENTRY(p_cubicm) { double P[4]; P[0] = R("p", 0); P[1] = R("p", 1); P[2] = R("p", 2); std::complex<double> z[3]; double d = solve_cubic(P[2], P[1], P[0], z); P[3] = 1; NEAR(z[0].imag(), 0, "first root is real"); NEAR(z[0].real() + z[1].real() + z[2].real(), -P[2], "sum of the roots"); NEAR(z[0].imag() + z[1].imag() + z[2].imag(), 0, "conjugate pair"); if (d <= 0) { for (int i = 0; i < 3; i++) NEAR(ev(P, 3, z[i].real()), 0, "root"); NEAR(z[0].real() * z[1].real() * z[2].real(), -P[0], "product of the roots"); } END; }
