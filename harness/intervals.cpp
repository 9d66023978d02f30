// P28 intervals, interval sets, inequalities
#include "ve.h"
#include <map>
#include <tuple>
#include <ftk/numeric/polynomial.hh>
#include <ftk/numeric/sqrt.hh>
#include <ftk/numeric/disjoint_intervals.hh>
#include <ftk/numeric/linear_inequality_solver.hh>
#include <ftk/numeric/quadratic_rational_inequality_solver.hh>
using namespace ftk;
#define END ve_reach("end")
typedef long long ll;
template <class T> static T val(const char *n, int i);
template <> double val<double>(const char *n, int i) { double x = ve_sym_real(n, i); VE_ASSUME((x >= -1e9) & (x <= 1e9)); return x; }
template <> ll val<ll>(const char *n, int i) { return ve_sym_int(n, i, -1000000000, 1000000000); }
// what an interval is meant to contain, kept independently of the class
template <class T> struct Spec { int lb, ub, lo, uo; T l, u;
  bool has(T x) const { bool a = !lb | (lo ? x > l : x >= l), b = !ub | (uo ? x < u : x <= u); return a & b; }
  bool empty() const { return lb & ub & ((l > u) | ((l == u) & ((lo | uo) != 0))); } };
template <class T> static basic_interval<T> mk(int i, Spec<T> &s, bool nonempty) {
  int k = ve_choice("kind", i, 4); s.lb = k & 1; s.ub = k >> 1; s.lo = ve_choice("lopen", i, 2); s.uo = ve_choice("uopen", i, 2); s.l = val<T>("l", i); s.u = val<T>("u", i);
  if (nonempty) VE_ASSUME(!s.empty());
  basic_interval<T> I; I.set_to_complete(); if (s.lb) { I.set_lower(s.l); if (s.lo) I.set_lower_open(); else I.set_lower_closed(); } else { I.set_lower_inf(); if (s.lo) I.set_lower_open(); }
  if (s.ub) { I.set_upper(s.u); if (s.uo) I.set_upper_open(); else I.set_upper_closed(); } else { I.set_upper_inf(); if (s.uo) I.set_upper_open(); }
  return I; }
template <class T> static void t_contains() { Spec<T> s; basic_interval<T> I = mk<T>(0, s, false); T x = val<T>("x", 0); VE_CHECK(I.contains(x) == s.has(x), "contains exactly the points between the bounds"); VE_CHECK(I.empty() == s.empty(), "emptiness"); VE_CHECK(I.complete() == !(s.lb | s.ub), "completeness");
  VE_CHECK(I.singleton() == ((s.lb & s.ub & !s.lo & !s.uo) && s.l == s.u), "singleton"); VE_CHECK((I.lower_bounded() == (bool)s.lb) & (I.upper_bounded() == (bool)s.ub), "boundedness"); VE_CHECK((I.lower_open() == (!s.lb | s.lo)) & (I.upper_open() == (!s.ub | s.uo)) & (I.lower_closed() != I.lower_open()) & (I.upper_closed() != I.upper_open()), "openness"); 
  basic_interval<T> h = I.hull(); Spec<T> q = s; q.lo = q.uo = 0; VE_CHECK(h.contains(x) == q.has(x), "closed hull");
  VE_CHECK(!basic_interval<T>().contains(x) & basic_interval<T>().empty() & !basic_interval<T>::empty_interval().contains(x), "the empty interval contains nothing"); VE_CHECK(basic_interval<T>::complete_interval().contains(x), "the complete interval contains everything"); T v = val<T>("v", 0); VE_CHECK(basic_interval<T>(v).contains(x) == (x == v), "one-point interval"); basic_interval<T> sg; sg.set_to_singleton(v); VE_CHECK(sg.contains(x) == (x == v), "set_to_singleton"); basic_interval<T> p(v, s.u); VE_CHECK(p.contains(x) == ((x >= v) & (x <= s.u)), "closed interval by bounds"); END; }
VE_ENTRY(iv_contains_d) { t_contains<double>(); }
VE_ENTRY(iv_contains_l) { t_contains<ll>(); }
template <class T> static void t_ops() { Spec<T> s, q; basic_interval<T> I = mk<T>(0, s, true), J = mk<T>(1, q, true); T x = val<T>("x", 0); bool a = s.has(x), b = q.has(x);
  basic_interval<T> K = I; K.intersect(J); VE_CHECK(K.contains(x) == (a & b), "intersection contains exactly the common points"); VE_CHECK(intersect(I, J).contains(x) == (a & b), "free intersection");
  VE_CHECK(I.overlaps(J) == J.overlaps(I), "overlap is symmetric"); VE_CHECK(I.overlaps(J) | !(a & b), "a common point means overlap"); if (!I.overlaps(J)) VE_CHECK(K.empty(), "no overlap, empty intersection");
  basic_interval<T> L = I; bool r = L.join(J); if (r) VE_CHECK(L.contains(x) == (a | b), "joined interval contains exactly the points of both"); else { VE_CHECK(L.contains(x) == a, "a refused join changes nothing"); VE_CHECK(!I.overlaps(J), "join is refused only for separate intervals"); }
  END; }
VE_ENTRY(iv_ops_d) { t_ops<double>(); }
VE_ENTRY(iv_ops_l) { t_ops<ll>(); }
// sets: joins of n intervals, then intersection with an interval or another set
template <class T> static void wellformed(const disjoint_intervals<T> &D) { std::vector<basic_interval<T>> v(D.subintervals().begin(), D.subintervals().end()); for (size_t i = 0; i < v.size(); i++) { VE_CHECK(!v[i].empty(), "parts are not empty"); for (size_t j = i + 1; j < v.size(); j++) VE_CHECK(!v[i].overlaps(v[j]), "parts are disjoint"); } }
template <class T> static disjoint_intervals<T> build(int off, int n, bool &has, T x) { disjoint_intervals<T> D; has = false; for (int i = 0; i < n; i++) { Spec<T> s; basic_interval<T> I = mk<T>(off + i, s, false); D.join(I); has |= s.has(x); } return D; }
template <class T> static void t_join() { int n = (int)ve_param("n", 2); T x = val<T>("x", 0); bool h; disjoint_intervals<T> D = build<T>(0, n, h, x); VE_CHECK(D.contains(x) == h, "union contains exactly the points of its parts"); wellformed(D); VE_CHECK(!D.empty() | !h, "emptiness"); END; }
VE_ENTRY(dj_join_d) { t_join<double>(); }
VE_ENTRY(dj_join_l) { t_join<ll>(); }
// closed intervals only: cheap enough for more parts
template <class T> static void t_joinc() { int n = (int)ve_param("n", 3), fl = (int)ve_param("fl", 0); T x = val<T>("x", 0); disjoint_intervals<T> D; bool h = false; auto one = [&](int i, Spec<T> &s) { s.lb = s.ub = 1; s.lo = fl >> (2 * i) & 1; s.uo = fl >> (2 * i + 1) & 1; s.l = val<T>("l", i); s.u = val<T>("u", i); VE_ASSUME(!s.empty()); basic_interval<T> I(s.l, s.u); if (s.lo) I.set_lower_open(); if (s.uo) I.set_upper_open(); return I; };
  for (int i = 0; i < n; i++) { Spec<T> s; basic_interval<T> I = one(i, s); if (s.lo | s.uo) D.join(I); else D.join(s.l, s.u); h |= s.has(x); } VE_CHECK(D.contains(x) == h, "union contains exactly the points of its parts"); wellformed(D); if (fl & 256) { END; return; } Spec<T> q; basic_interval<T> J = one(n, q); if (q.lo | q.uo) D.intersect(J); else D.intersect(q.l, q.u); VE_CHECK(D.contains(x) == (h & q.has(x)), "intersection with an interval"); wellformed(D); END; }
VE_ENTRY(dj_joinc_d) { t_joinc<double>(); }
VE_ENTRY(dj_joinc_l) { t_joinc<ll>(); }
template <class T> static void t_inter() { int m = (int)ve_param("m", 2), n = (int)ve_param("n", 1); T x = val<T>("x", 0); bool a, b; disjoint_intervals<T> A = build<T>(0, m, a, x), B = build<T>(m, n, b, x); A.intersect(B); VE_CHECK(A.contains(x) == (a & b), "intersection of sets contains exactly the common points"); wellformed(A); END; }
VE_ENTRY(dj_inter_d) { t_inter<double>(); }
VE_ENTRY(dj_inter_l) { t_inter<ll>(); }
VE_ENTRY(dj_misc) { double x = val<double>("x", 0), v = val<double>("v", 0); Spec<double> s; basic_interval<double> I = mk<double>(0, s, true); disjoint_intervals<double> D; VE_CHECK(D.empty() & !D.contains(x) & !D.complete(), "default set is empty"); D.join(I); VE_CHECK(D.complete() == I.complete(), "complete"); VE_CHECK(D.singleton() == I.singleton(), "singleton"); VE_CHECK(D.overlaps(basic_interval<double>(v)) == s.has(v), "overlap with a point"); D.set_to_complete(); VE_CHECK(D.complete() & D.contains(x), "set_to_complete"); D.set_to_empty(); VE_CHECK(D.empty() & !D.contains(x), "set_to_empty"); VE_CHECK(disjoint_intervals<double>(v).contains(x) == (x == v), "point set"); VE_CHECK(disjoint_intervals<double>::complete_interval().contains(x) & !disjoint_intervals<double>::empty_interval().contains(x), "named sets"); END; }
// quantized set to real set
VE_ENTRY(dj_quant) { int n = (int)ve_param("n", 1); ll x = val<ll>("x", 0); bool h; disjoint_intervals<ll> D = build<ll>(0, n, h, x); disjoint_intervals<double> R(D, 1000000000LL); double eps = 1.0 / (double)ve_param("factor", 1000000000); VE_CHECK(R.contains((double)x * eps) == h, "the real set contains exactly the rescaled points"); END; }
// a x + b >= 0
VE_ENTRY(lin_ineq) { double a = ve_sym_real("a", 0), b = ve_sym_real("b", 0), x = ve_sym_real("x", 0); VE_ASSUME((a == 0) | (a >= 1e-6) | (a <= -1e-6)); basic_interval<double> I = solve_linear_inequality(a, b); double y = a * x + b; bool in = I.contains(x); VE_CHECK((ve_native() & (std::fabs(y) <= 1e-9 * (1 + std::fabs(b)))) | (in == (y >= 0)), "contains exactly the solutions of the linear inequality"); if (a != 0) { double r = -b / a; VE_CHECK(I.contains(r), "the boundary point is a solution"); } END; }
// P(x) / Q(x) >= 0, exact heap arrays; coefficients chosen, the leading ones symbolic; x symbolic
VE_ENTRY(quad_rat) { static const double P0[9][3] = {{0, 0, 0}, {1, 0, 0}, {-2, 1, 0}, {-6, 1, 1}, {1, -2, 1}, {1, 0, 1}, {6, -5, 1}, {0, 1, 0}, {-1, 0, 1}}; static const double lead[5] = {1, -1, 2, -3, 0.5};
  int pk = (int)ve_param("p", -1), qk = (int)ve_param("q", -1); if (pk < 0) pk = ve_choice("p", 0, 9); if (qk < 0) qk = ve_choice("q", 0, 9); double a = lead[ve_choice("a", 0, 5)], b = lead[ve_choice("b", 0, 5)]; double *P = new double[3], *Q = new double[3]; for (int i = 0; i < 3; i++) P[i] = a * P0[pk][i], Q[i] = b * P0[qk][i];
  const auto r = solve_quadratic_rational_inequality_quantized<double>(P, Q); const disjoint_intervals<ll> &I = std::get<0>(r); ll x = ve_sym_int("x", 0, -20000000000LL, 20000000000LL); double t = (double)x / 1e9, p = P[0] + t * (P[1] + t * P[2]), q = Q[0] + t * (Q[1] + t * Q[2]);
  for (int z = -4; z <= 4; z++) { double dl = (double)x - z * 1e9; VE_ASSUME((dl > 1000) | (dl < -1000)); }
  bool pz = pk == 0, qz = qk == 0; bool ex = pz ? true : qz ? false : ((p >= 0) & (q > 0)) | ((p <= 0) & (q < 0)); VE_CHECK(I.contains(x) == ex, "contains exactly the solutions of the rational inequality"); END; }
// same with symbolic coefficients: P and Q linear
VE_ENTRY(quad_ratl) { double *P = new double[3], *Q = new double[3]; int kp = ve_choice("kp", 0, 3), kq = ve_choice("kq", 0, 3); static const ll root[3] = {-3000000000LL, 500000000LL, 2000000000LL}; double a = ve_sym_real("a", 0), b = ve_sym_real("b", 0); VE_ASSUME(((a >= 1e-3) & (a <= 1e3)) | ((a <= -1e-3) & (a >= -1e3))); VE_ASSUME(((b >= 1e-3) & (b <= 1e3)) | ((b <= -1e-3) & (b >= -1e3)));
  double rp = root[kp] / 1e9, rq = root[kq] / 1e9; P[0] = -a * rp; P[1] = a; P[2] = 0; Q[0] = -b * rq; Q[1] = b; Q[2] = 0; const auto r = solve_quadratic_rational_inequality_quantized<double>(P, Q); const disjoint_intervals<ll> &I = std::get<0>(r); ll x = ve_sym_int("x", 0, -20000000000LL, 20000000000LL); for (int i = 0; i < 3; i++) { ll dl = x - root[i]; VE_ASSUME((dl > 1000) | (dl < -1000)); }
  bool sp = (a > 0) == (x > root[kp]), sq = (b > 0) == (x > root[kq]); VE_CHECK(I.contains(x) == (sp == sq), "contains exactly the solutions of the rational inequality"); END; }
