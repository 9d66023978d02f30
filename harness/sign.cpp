#include "ve.h"
#include <map>
#include <ftk/numeric/critical_point_test.hh>
using namespace ftk;
typedef long long L;
// ------------------------------------------------------------------ oracle
// sign of the determinant of the homogeneous point matrix [x_i1 .. x_id 1] whose
// entries x_ij are perturbed by eps^(2^(i*d-j)) (i = rank, j = 1..d), eps -> 0+ :
// the determinant is a polynomial in eps with concrete exponents; its sign is that
// of the non-zero coefficient of lowest exponent.
typedef std::map<long, L> Pol;
template <int n> static Pol perturbed(const L X[n][n - 1]) {
  Pol D; int perm[n]; for (int i = 0; i < n; i++) perm[i] = i;
  do {
    int inv = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inv += perm[i] > perm[j];
    Pol t; t[0] = inv % 2 ? -1 : 1;
    for (int i = 0; i < n; i++) if (perm[i] < n - 1) { Pol u; long e = 1L << (i * (n - 1) + (n - 1) - (perm[i] + 1)); for (auto &p : t) { u[p.first] += p.second * X[i][perm[i]]; u[p.first + e] += p.second; } t = u; }
    for (auto &p : t) D[p.first] += p.second;
  } while (std::next_permutation(perm, perm + n));
  return D;
}
template <int n> static int psign(const L X[n][n - 1]) { Pol D = perturbed<n>(X); int s = 0; for (auto it = D.rbegin(); it != D.rend(); ++it) s = it->second > 0 ? 1 : it->second < 0 ? -1 : s; return s; }
template <int n> static int rsign(const L X[n][n - 1]);
template <> int rsign<2>(const L X[2][1]) { L Y[2] = {X[0][0], X[1][0]}; return robust_sign_det2<L>(Y); }
template <> int rsign<3>(const L X[3][2]) { return robust_sign_det3<L>(X); }
template <> int rsign<4>(const L X[4][3]) { return robust_sign_det4<L>(X); }
template <int n> static int pos(const L X[n][n - 1], const int *id);
template <> int pos<2>(const L X[2][1], const int *id) { L Y[2] = {X[0][0], X[1][0]}; return positive1<L>(Y, id); }
template <> int pos<3>(const L X[3][2], const int *id) { return positive2<L>(X, id); }
template <> int pos<4>(const L X[4][3], const int *id) { return positive3<L>(X, id); }
template <int n> static bool crit(const L X[n][n - 1], const int *id);
template <> bool crit<2>(const L X[2][1], const int *id) { L Y[2] = {X[0][0], X[1][0]}; return robust_critical_point_in_simplex1<L, int>(Y, id); }
template <> bool crit<3>(const L X[3][2], const int *id) { return robust_critical_point_in_simplex2<L, int>(X, id); }
template <> bool crit<4>(const L X[4][3], const int *id) { return robust_critical_point_in_simplex3<L, int>(X, id); }
static L bound(int n) { L d = n == 2 ? (1LL << 40) : n == 3 ? (1LL << 29) : (1LL << 19); L p = ve_param("bound", 0); return p ? p : d; }
template <int n> static void input(L X[n][n - 1], int m = n) { L b = bound(n); for (int i = 0; i < m; i++) for (int j = 0; j < n - 1; j++) X[i][j] = ve_sym_int("v", i * 3 + j, -b, b); }
// distinct ids in a symbolic order, decided by forking on the pairwise comparisons
static void ids(int *id, int n, int order) { for (int i = 0; i < n; i++) id[i] = ve_int("id", i, 0, 1 << 30); if (order == 0) { for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) VE_ASSUME(id[i] < id[j]); } else for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { if (id[i] == id[j]) ve_end_path(); if (id[i] < id[j]) ve_trace("lt", 1); } }
template <int n> static void t_sos() { L X[n][n - 1]; input<n>(X); ve_automerge(1); ve_lazy(1); int s = rsign<n>(X), p = psign<n>(X); ve_automerge(0); ve_lazy(0); VE_CHECK(s == p, "sign of the perturbed determinant"); VE_CHECK((s == 1) | (s == -1), "never 0"); ve_reach("end"); }
VE_ENTRY(sos2) { t_sos<2>(); } VE_ENTRY(sos3) { t_sos<3>(); } VE_ENTRY(sos4) { t_sos<4>(); }
// orientation flips under every exchange; containment does not change
template <int n> static void t_perm(bool contain) {
  L X[n][n - 1]; input<n>(X); int id[n]; ids(id, n, 1); int a = ve_choice("a", 0, n - 1), b = a + 1; // adjacent exchanges generate all permutations
  L Y[n][n - 1]; int jd[n]; for (int i = 0; i < n; i++) { int k = i == a ? b : i == b ? a : i; jd[i] = id[k]; for (int j = 0; j < n - 1; j++) Y[i][j] = X[k][j]; }
  ve_automerge(1); ve_lazy(1);
  if (contain) { bool c = crit<n>(X, id), d = crit<n>(Y, jd); ve_automerge(0); ve_lazy(0); VE_CHECK(c == d, "containment does not depend on the order of the vertices"); }
  else { int s = pos<n>(X, id), t = pos<n>(Y, jd); ve_automerge(0); ve_lazy(0); VE_CHECK(s == -t, "exchange flips the orientation"); VE_CHECK((s == 1) | (s == -1), "never 0"); }
  ve_reach("end");
}
VE_ENTRY(perm2) { t_perm<2>(false); } VE_ENTRY(perm3) { t_perm<3>(false); } VE_ENTRY(perm4) { t_perm<4>(false); }
VE_ENTRY(cperm2) { t_perm<2>(true); } VE_ENTRY(cperm3) { t_perm<3>(true); } VE_ENTRY(cperm4) { t_perm<4>(true); }
// exactness in general position: Cramer's rule for the barycentric coordinates of the origin
template <int n> static L det_rec(const L M[n][n]) { if constexpr (n == 1) return M[0][0]; else { L d = 0; for (int c = 0; c < n; c++) { L S[n - 1][n - 1]; for (int i = 1; i < n; i++) { int k = 0; for (int j = 0; j < n; j++) if (j != c) S[i - 1][k++] = M[i][j]; } L t = M[0][c] * det_rec<n - 1>(S); d = c % 2 ? d - t : d + t; } return d; } }
template <int n> static L hdet(const L X[n][n - 1], int z) { L M[n][n]; for (int i = 0; i < n; i++) { for (int j = 0; j < n - 1; j++) M[i][j] = i == z ? 0 : X[i][j]; M[i][n - 1] = 1; } return det_rec<n>(M); }
template <int n> static void t_exact() {
  L X[n][n - 1]; input<n>(X); int id[n]; ids(id, n, 1); L D = hdet<n>(X, -1), l[n]; int gp = D != 0; for (int i = 0; i < n; i++) { l[i] = hdet<n>(X, i); gp &= l[i] != 0; }
  VE_ASSUME(gp); int in1 = D > 0, in2 = D < 0; for (int i = 0; i < n; i++) { in1 &= l[i] > 0; in2 &= l[i] < 0; }
  ve_automerge(1); ve_lazy(1); bool c = crit<n>(X, id); ve_automerge(0); ve_lazy(0); VE_CHECK(c == ((in1 | in2) != 0), "contains a zero exactly if the origin is strictly inside"); ve_reach("end");
}
VE_ENTRY(exact2) { t_exact<2>(); } VE_ENTRY(exact3) { t_exact<3>(); } VE_ENTRY(exact4) { t_exact<4>(); }
// every orientation the containment test asks for is decided, whatever the vectors
template <int n> static void t_never0() { L X[n][n - 1]; input<n>(X); int id[n]; ids(id, n, 1); ve_automerge(1); ve_lazy(1); int s = pos<n>(X, id); ve_automerge(0); ve_lazy(0); VE_CHECK((s == 1) | (s == -1), "never 0"); ve_reach("end"); }
VE_ENTRY(never2) { t_never0<2>(); } VE_ENTRY(never3) { t_never0<3>(); } VE_ENTRY(never4) { t_never0<4>(); }
// boundary of an n-simplex: n+1 facets, an even number of them punctured
template <int n> static void t_parity() {
  L X[n + 1][n - 1]; input<n>(X, n + 1); int id[n + 1]; ids(id, n + 1, 0); int cnt = 0; ve_automerge(1); ve_lazy(1); bool par = false;
  for (int k = 0; k <= n; k++) { L Y[n][n - 1]; int jd[n]; int m = 0; for (int i = 0; i <= n; i++) if (i != k) { jd[m] = id[i]; for (int j = 0; j < n - 1; j++) Y[m][j] = X[i][j]; m++; } par = par ^ crit<n>(Y, jd); }
  ve_automerge(0); ve_lazy(0); VE_CHECK(!par, "even number of punctured facets"); ve_reach("end");
}
VE_ENTRY(parity2) { t_parity<2>(); } VE_ENTRY(parity3) { t_parity<3>(); } VE_ENTRY(parity4) { t_parity<4>(); }
// never more than two
template <int n> static void t_atmost2() {
  L X[n + 1][n - 1]; input<n>(X, n + 1); int id[n + 1]; ids(id, n + 1, 0); int cnt = 0; ve_automerge(1); ve_lazy(1);
  for (int k = 0; k <= n; k++) { L Y[n][n - 1]; int jd[n]; int m = 0; for (int i = 0; i <= n; i++) if (i != k) { jd[m] = id[i]; for (int j = 0; j < n - 1; j++) Y[m][j] = X[i][j]; m++; } cnt += crit<n>(Y, jd); }
  ve_automerge(0); ve_lazy(0); VE_CHECK(cnt <= 2, "at most two punctured facets"); ve_reach("end");
}
VE_ENTRY(atmost2_2) { t_atmost2<2>(); } VE_ENTRY(atmost2_3) { t_atmost2<3>(); } VE_ENTRY(atmost2_4) { t_atmost2<4>(); }

// components in -1..1, the first two vectors split into all 3^3 x 3^3 combinations (parameters select a range)
VE_ENTRY(parity4s) { const int n = 4; L X[5][3]; input<n>(X, 5); int c = ve_choice("c", 0, (int)ve_param("cnt", 27)) + (int)ve_param("lo", 0), d = ve_choice("d", 0, (int)ve_param("dcnt", 27)) + (int)ve_param("dlo", 0), e[2] = {c, d};
  for (int i = 0; i < 2; i++) for (int j = 0, r = e[i]; j < 3; j++, r /= 3) { VE_ASSUME(X[i][j] == r % 3 - 1); X[i][j] = r % 3 - 1; }
  int id[5]; ids(id, 5, 0); ve_automerge(1); ve_lazy(1); bool par = false;
  for (int k = 0; k <= n; k++) { L Y[n][n - 1]; int jd[n]; int m = 0; for (int i = 0; i <= n; i++) if (i != k) { jd[m] = id[i]; for (int j = 0; j < n - 1; j++) Y[m][j] = X[i][j]; m++; } par = par ^ crit<n>(Y, jd); }
  ve_automerge(0); ve_lazy(0); VE_CHECK(!par, "even number of punctured facets"); ve_reach("end"); }
// general position, full range: Grassmann-Pluecker relations between the orientations
typedef __int128 LL;
VE_ENTRY(gp_lemma) { double v[6]; for (int i = 0; i < 6; i++) { v[i] = ve_sym_real("g", i); VE_ASSUME(v[i] != 0); } VE_ASSUME(v[0] * v[1] - v[2] * v[3] + v[4] * v[5] == 0);
  int p = (v[0] > 0) == (v[1] > 0), q = (v[2] > 0) != (v[3] > 0), r = (v[4] > 0) == (v[5] > 0); VE_CHECK(!((p & q & r) | (!p & !q & !r)), "three terms that sum to zero do not all have one sign"); ve_reach("end"); }
static void gp(L a, L b, L c, L d, L e, L f) { VE_CHECK((LL)a * b - (LL)c * d + (LL)e * f == 0, "Grassmann-Pluecker identity"); int p = (a > 0) == (b > 0), q = (c > 0) != (d > 0), r = (e > 0) == (f > 0); VE_ASSUME(!((p & q & r) | (!p & !q & !r))); }
template <int n> static void t_gppar() {
  L X[n + 1][n - 1]; input<n>(X, n + 1); int id[n + 1]; ids(id, n + 1, 0); int g = 1;
  auto D = [&](int a, int b, int c) -> L { if (n == 3) return X[a][0] * X[b][1] - X[a][1] * X[b][0]; return X[a][0] * (X[b][1] * X[c][2] - X[b][2] * X[c][1]) - X[a][1] * (X[b][0] * X[c][2] - X[b][2] * X[c][0]) + X[a][2] * (X[b][0] * X[c][1] - X[b][1] * X[c][0]); };
  if (n == 3) { for (int a = 0; a < 4; a++) for (int b = a + 1; b < 4; b++) g &= D(a, b, 0) != 0; }
  else for (int a = 0; a < 5; a++) for (int b = a + 1; b < 5; b++) for (int c = b + 1; c < 5; c++) g &= D(a, b, c) != 0;
  for (int k = 0; k <= n; k++) { L Y[n][n - 1]; int m = 0; for (int i = 0; i <= n; i++) if (i != k) { for (int j = 0; j < n - 1; j++) Y[m][j] = X[i][j]; m++; } g &= hdet<n>(Y, -1) != 0; }
  ve_lazy(1); VE_ASSUME(g);
  if (n == 3) gp(D(0, 1, 0), D(2, 3, 0), D(0, 2, 0), D(1, 3, 0), D(0, 3, 0), D(1, 2, 0));
  else for (int a = 0; a < 5; a++) { int o[4], m = 0; for (int i = 0; i < 5; i++) if (i != a) o[m++] = i; gp(D(a, o[0], o[1]), D(a, o[2], o[3]), D(a, o[0], o[2]), D(a, o[1], o[3]), D(a, o[0], o[3]), D(a, o[1], o[2])); }
  ve_automerge(1); bool par = false;
  for (int k = 0; k <= n; k++) { L Y[n][n - 1]; int jd[n]; int m = 0; for (int i = 0; i <= n; i++) if (i != k) { jd[m] = id[i]; for (int j = 0; j < n - 1; j++) Y[m][j] = X[i][j]; m++; } par = par ^ crit<n>(Y, jd); }
  VE_CHECK(!par, "even number of punctured facets"); ve_automerge(0); ve_lazy(0); ve_reach("end");
}
VE_ENTRY(gppar3) { t_gppar<3>(); } VE_ENTRY(gppar4) { t_gppar<4>(); }
