// P12 indexing/reshape/conversion, P13 slicing/stacking/serialization, P14 interpolation, P16 convolution
#include "ve.h"
#include <set>
#include <map>
#include <ftk/ndarray.hh>
#include <ftk/ndarray/conv.hh>
#include <ftk/utils/serialization.hh>
#include <ftk/numeric/linear_interpolation.hh>
#include <ftk/numeric/bilinear_interpolation.hh>
#include <ftk/numeric/trilinear_interpolation.hh>
using namespace ftk;
#define END ve_reach("end")
typedef std::vector<size_t> V;
static V shape() { int nd = (int)ve_param("nd", 3), mx = (int)ve_param("max", 3); V d; for (int i = 0; i < nd; i++) d.push_back(1 + ve_choice("dim", i, mx)); return d; }
static size_t prod(const V &d) { size_t n = 1; for (auto x : d) n *= x; return n; }
// position of a multi-index, first index fastest, by definition
static size_t pos(const V &d, const V &i) { size_t p = 0, m = 1; for (size_t j = 0; j < d.size(); j++) { p += i[j] * m; m *= d[j]; } return p; }
static V unpos(const V &d, size_t p) { V i; for (size_t j = 0; j < d.size(); j++) { i.push_back(p % d[j]); p /= d[j]; } return i; }
template <class T> static void fillsym(ndarray<T> &a, const char *n, int base = 0) { for (size_t i = 0; i < a.size(); i++) a[i] = (T)ve_sym_int(n, base + (int)i, -1000, 1000); }
template <> void fillsym<double>(ndarray<double> &a, const char *n, int base) { for (size_t i = 0; i < a.size(); i++) a[i] = ve_sym_real(n, base + (int)i); }
template <class T> static T ref(const ndarray<T> &a, const V &i) { return a.std_vector()[pos(a.shape(), i)]; }
struct PosInfo { V d, i; };
// an arbitrary multi-index inside
static V anyidx(const V &d, const char *n = "i") { V i; for (size_t j = 0; j < d.size(); j++) i.push_back((size_t)ve_choice(n, (int)j, (int)d[j])); return i; }
template <class T> static T at_n(ndarray<T> &a, const V &i, bool paren, bool cst) { const ndarray<T> &c = a; switch (i.size()) {
#define CASE(k, ...) case k: return cst ? (paren ? c(__VA_ARGS__) : c.at(__VA_ARGS__)) : (paren ? a(__VA_ARGS__) : a.at(__VA_ARGS__));
  CASE(1, i[0]) CASE(2, i[0], i[1]) CASE(3, i[0], i[1], i[2]) CASE(4, i[0], i[1], i[2], i[3]) CASE(5, i[0], i[1], i[2], i[3], i[4]) CASE(6, i[0], i[1], i[2], i[3], i[4], i[5]) CASE(7, i[0], i[1], i[2], i[3], i[4], i[5], i[6]) } return T(); }
template <class T> static double get_n(const ndarray<T> &c, const V &i) { switch (i.size()) { case 1: return c.get(i[0]); case 2: return c.get(i[0], i[1]); case 3: return c.get(i[0], i[1], i[2]); case 4: return c.get(i[0], i[1], i[2], i[3]); case 5: return c.get(i[0], i[1], i[2], i[3], i[4]); case 6: return c.get(i[0], i[1], i[2], i[3], i[4], i[5]); default: return c.get(i[0], i[1], i[2], i[3], i[4], i[5], i[6]); } }
VE_ENTRY(nd_index) { V d = shape(); ndarray<int> a(d); fillsym(a, "x"); VE_CHECK(a.nd() == d.size() & a.size() == prod(d) & a.nelem() == prod(d) & a.shape() == d, "shape, size and number of elements"); for (size_t j = 0; j < d.size(); j++) VE_CHECK(a.dim(j) == d[j] & a.shape(j) == d[j], "extent");
  V i = anyidx(d); size_t p = pos(d, i); int x = a.std_vector()[p]; const ndarray<int> &c = a; VE_CHECK(a.index(i) == p, "index of a multi-index"); VE_CHECK(a.index(i.data()) == p, "index (pointer)"); std::vector<int> ii(i.begin(), i.end()); VE_CHECK(a.index(ii) == p, "index (int)"); VE_CHECK(&a.at(i) == a.data() + p & &c.at(i) == c.data() + p & &a.at(ii) == a.data() + p & &c.at(ii) == c.data() + p & &a.at(i.data()) == a.data() + p & &c.at(i.data()) == c.data() + p, "element address"); VE_CHECK(&a(i) == a.data() + p & &a(ii) == a.data() + p, "call operator");
  for (int k = 0; k < 4; k++) VE_CHECK(at_n(a, i, k & 1, k & 2) == x, "element access by separate indices"); VE_CHECK(get_n(a, i) == (double)x, "get"); VE_CHECK(a[p] == x & c[p] == x, "flat access");
  auto u = a.from_index<size_t>(p); VE_CHECK(u == i, "index to multi-index inverts"); auto l = a.get_lattice(); VE_CHECK(l.nd() == d.size() & l.n() == prod(d), "lattice of the array"); VE_CHECK(l.from_integer(p) == ii, "lattice index"); END; }
// distinct multi-indices address distinct elements: symbolic indices, fixed shape
VE_ENTRY(nd_distinct) { V d = {4, 3, 5, 2}; d.resize((size_t)ve_param("nd", 3)); ndarray<int> a(d); V i, j; bool same = true; for (size_t k = 0; k < d.size(); k++) { i.push_back((size_t)ve_sym_int("i", (int)k, 0, d[k] - 1)); j.push_back((size_t)ve_sym_int("j", (int)k, 0, d[k] - 1)); same &= i[k] == j[k]; } size_t p = a.index(i), q = a.index(j); VE_CHECK(p < a.size(), "inside the storage"); VE_CHECK((p == q) == same, "distinct multi-indices have distinct places"); END; }
struct Big : public ndarray_base { // only the non-virtual base functions, huge extents
  int type() const { return 0; } size_t size() const { return 1; } bool empty() const { return false; } size_t elem_size() const { return 1; } const void *pdata() const { return 0; } void *pdata() { return 0; } void reshape(const std::vector<size_t> &d) { dims = d; s.resize(d.size()); for (size_t i = 0; i < d.size(); i++) s[i] = i ? s[i - 1] * d[i - 1] : 1; }
  double get(size_t) const { return 0; } double get(size_t, size_t) const { return 0; } double get(size_t, size_t, size_t) const { return 0; } double get(size_t, size_t, size_t, size_t) const { return 0; } double get(size_t, size_t, size_t, size_t, size_t) const { return 0; } double get(size_t, size_t, size_t, size_t, size_t, size_t) const { return 0; } double get(size_t, size_t, size_t, size_t, size_t, size_t, size_t) const { return 0; }
  void read_binary_file(FILE *) {} void to_binary_file(FILE *) {} int nc_datatype() const { return 0; } void read_bp(const std::string &, const std::string &, int, diy::mpi::communicator) {} bool read_bp_legacy(const std::string &, const std::string &, diy::mpi::communicator) { return false; } void read_vtk_image_data_file_sequence(const std::string &) {} };
VE_ENTRY(nd_big) { Big b; size_t n0 = (size_t)ve_sym_int("n0", 0, 1, 1 << 20), e = (size_t)1 << ve_param("e", 14); b.reshape(V({n0, e, e})); VE_CHECK(b.nelem() == (n0 * e) * e, "number of elements of a big array"); V i = {(size_t)ve_sym_int("i", 0, 0, (1 << 20) - 1), (size_t)ve_sym_int("i", 1, 0, (1 << 14) - 1), (size_t)ve_sym_int("i", 2, 0, (1 << 14) - 1)}; VE_ASSUME(i[0] < n0); VE_CHECK(b.index(i) == i[0] + i[1] * n0 + i[2] * (n0 * e), "index in a big array"); b.set_multicomponents(2); VE_CHECK(b.ncomponents() == n0 * e & b.multicomponents() == 2, "number of components"); END; }
VE_ENTRY(nd_reshape) { V d = shape(); ndarray<double> a(d); fillsym(a, "x"); auto before = a.std_vector(); a.set_has_time(ve_choice("tv", 0, 2));
  int how = ve_choice("how", 0, 6); V e(d.rbegin(), d.rend()); if (how == 0) a.reshape(e); if (how == 1) { e = V({prod(d)}); a.reshape(prod(d)); } if (how == 2) { e = d; e.insert(e.begin(), 1); a.make_multicomponents(); VE_CHECK(a.multicomponents() == 1 & a.ncomponents() == 1, "one component"); } if (how == 3) { std::vector<int> ei(e.begin(), e.end()); ndarray_base &nb = a; nb.reshape(ei); } if (how == 4) { ndarray<int> b(e); a.reshape(b); } if (how == 5) { std::vector<int> ei(e.begin(), e.end()); a.reshape((int)ei.size(), ei.data()); }
  VE_CHECK(a.shape() == e & a.nelem() == prod(d), "new shape"); bool same = true; for (size_t i = 0; i < before.size(); i++) same &= a[i] == before[i]; VE_CHECK(same, "reshaping keeps the storage order"); V i = anyidx(e); VE_CHECK(a.at(i) == before[pos(e, i)], "element after reshaping"); END; }
VE_ENTRY(nd_transpose) { V d = shape(); ndarray<double> a(d), c; fillsym(a, "x"); ndarray<double> t = a.get_transpose(); V e(d.rbegin(), d.rend()); VE_CHECK(t.shape() == e, "shape of the transpose"); for (size_t p = 0; p < prod(d); p++) { V i = unpos(d, p), r(i.rbegin(), i.rend()); VE_CHECK(t.at(r) == ref(a, i), "transposed element"); } VE_CHECK(t.get_transpose() == a, "transposing twice"); c = a; ndarray<double> &r = c.transpose(); VE_CHECK(&r == &c & c == t, "transpose in place"); END; }
VE_ENTRY(nd_convert) { V d = shape(); ndarray<int> a(d); fillsym(a, "x"); int nc = ve_choice("nc", 0, 2), tv = ve_choice("tv", 0, 2); a.set_multicomponents(nc); a.set_has_time(tv); ndarray<double> b(a), b2; b2 = a; ndarray<long> c(b); ndarray<int> e(a), f; f = a; VE_CHECK(b.shape() == d & b2.shape() == d & c.shape() == d & e.shape() == d & f.shape() == d, "shape"); bool ok = true; for (size_t i = 0; i < a.size(); i++) ok &= (b[i] == (double)a[i]) & (b2[i] == (double)a[i]) & (c[i] == (long)a[i]) & (e[i] == a[i]) & (f[i] == a[i]); VE_CHECK(ok, "values are converted in place"); VE_CHECK((int)b.multicomponents() == nc & (int)c.multicomponents() == nc & (int)e.multicomponents() == nc & (int)f.multicomponents() == nc & b.has_time() == tv & c.has_time() == tv & e.has_time() == tv & f.has_time() == tv, "component and time flags"); V i = anyidx(d); VE_CHECK(b.at(i) == (double)ref(a, i) & c.at(i) == (long)ref(a, i) & e.at(i) == ref(a, i), "multi-index access after conversion"); e[0] += 1; VE_CHECK(a[0] + 1 == e[0], "copies are independent"); VE_CHECK((a == f) & !(a == e), "equality");
  std::vector<int> v; a.to_vector(v); ndarray<int> g; g.copy_vector(v); VE_CHECK(g.nd() == 1 & g.dim(0) == a.size(), "shape after copying a vector"); g.reshape(d); VE_CHECK(g == a, "vector round trip"); ndarray<int> h(d); h.from_vector(v); VE_CHECK(h == a, "from_vector"); ndarray<int> k; k.copy(v.begin(), v.end()); VE_CHECK(k.shape() == V({a.size()}) & k.std_vector() == v, "copy from iterators"); ndarray<int> l(v.data(), d); VE_CHECK(l == a, "from a raw buffer"); ndarray<int> m(V({1})); m[0] = -5; ndarray<int> a2(a); m.swap(a2); VE_CHECK(m == a & a2.shape() == V({1}) & a2[0] == -5 & (int)m.multicomponents() == nc & m.has_time() == tv, "swap"); m.reset(); VE_CHECK(m.empty() & m.nd() == 0 & m.nelem() == 0 & m.multicomponents() == 0, "reset"); END; }
VE_ENTRY(nd_arith) { V d = shape(); ndarray<double> a(d), b(d); fillsym(a, "x"); fillsym(b, "y"); double k = ve_sym_real("k", 0); VE_ASSUME(k != 0); ndarray<double> s = a + b, p = a * k, q = a / k, u(a), w(a), z(a), em; u += b; w *= k; z /= k; em += b; ndarray<double> f(d, k), g(d); g.fill(k); VE_CHECK(s.shape() == d & p.shape() == d & q.shape() == d & f.shape() == d, "shape of results"); bool ok = true; for (size_t i = 0; i < a.size(); i++) ok &= ve_near(s[i], a[i] + b[i]) & ve_near(p[i], a[i] * k) & ve_near(q[i], a[i] / k) & ve_near(u[i], a[i] + b[i]) & ve_near(w[i], a[i] * k) & ve_near(z[i], a[i] / k) & (em[i] == b[i]) & (f[i] == k) & (g[i] == k); VE_CHECK(ok, "arithmetic is element-wise"); END; }
VE_ENTRY(nd_stats) { V d = shape(); ndarray<double> a(d); fillsym(a, "x"); ve_automerge(1); ve_lazy(1); auto mm = a.min_max(); double ma = a.maxabs(), re = a.resolution(); ve_automerge(0); ve_lazy(0); double mn = std::get<0>(mm), mx = std::get<1>(mm); bool inn = false, inx = false, ina = false; double x; for (size_t i = 0; i < a.size(); i++) { x = a[i]; VE_CHECK(mn <= x & x <= mx, "bounds"); VE_CHECK((x <= ma) & (-x <= ma), "maxabs bounds"); VE_CHECK((x == 0) | (x >= re) | (-x >= re), "resolution bounds"); inn |= x == mn; inx |= x == mx; ina |= (x == ma) | (-x == ma); } VE_ASSUME((mn < 1e308) & (mx > -1e308)); VE_CHECK(inn & inx & ina, "attained"); double lo = ve_sym_real("lo", 0), hi = ve_sym_real("hi", 0); VE_ASSUME(lo <= hi); ndarray<double> c(a); ve_automerge(1); ve_lazy(1); c.clamp(lo, hi); ve_automerge(0); ve_lazy(0); for (size_t i = 0; i < a.size(); i++) VE_CHECK((c[i] >= lo) & (c[i] <= hi) & ((c[i] == a[i]) | ((a[i] < lo) & (c[i] == lo)) | ((a[i] > hi) & (c[i] == hi))), "clamping"); END; }
// P13
VE_ENTRY(nd_slice) { V d = shape(); ndarray<double> a(d); fillsym(a, "x"); V st, sz; for (size_t j = 0; j < d.size(); j++) { st.push_back(ve_choice("st", (int)j, (int)d[j])); sz.push_back(1 + ve_choice("sz", (int)j, (int)(d[j] - st[j]))); } ndarray<double> s = a.slice(st, sz), t = a.slice(lattice(st, sz)), u = a.subarray(lattice(st, sz)); VE_CHECK(s.shape() == sz & t.shape() == sz & u.shape() == sz, "shape of the block"); for (size_t p = 0; p < prod(sz); p++) { V i = unpos(sz, p), j = i; for (size_t k = 0; k < j.size(); k++) j[k] += st[k]; VE_CHECK(ref(s, i) == ref(a, j), "element of the block"); VE_CHECK(ref(u, i) == ref(a, j), "element of the subarray"); } VE_CHECK(s == t, "slice by lattice"); END; }
VE_ENTRY(nd_subarray) { V d = shape(); int nc = (int)ve_param("nc", 1); ndarray<double> a(d); fillsym(a, "x"); a.set_multicomponents(nc); V st, sz, fst(nc, 0), fsz(d.begin(), d.begin() + nc); for (size_t j = nc; j < d.size(); j++) { st.push_back(ve_choice("st", (int)j, (int)d[j])); sz.push_back(1 + ve_choice("sz", (int)j, (int)(d[j] - st.back()))); fst.push_back(st.back()); fsz.push_back(sz.back()); } ndarray<double> u = a.subarray(lattice(st, sz)); VE_CHECK(u.shape() == fsz, "shape with component dimensions"); VE_CHECK((int)u.multicomponents() == nc, "number of component dimensions"); for (size_t p = 0; p < prod(fsz); p++) { V i = unpos(fsz, p), j = i; for (size_t k = 0; k < j.size(); k++) j[k] += fst[k]; VE_CHECK(ref(u, i) == ref(a, j), "element of the subarray"); } END; }
VE_ENTRY(nd_time) { V d = shape(); ndarray<double> a(d); fillsym(a, "x"); size_t nt = d.back(); V e(d.begin(), d.end() - 1); auto all = a.slice_time(); VE_CHECK(all.size() == nt, "one slice per time step"); for (size_t t = 0; t < nt; t++) { auto s = a.slice_time(t); VE_CHECK(s.shape() == e, "shape of a time slice"); VE_CHECK(s == all[t], "slices agree"); for (size_t p = 0; p < prod(e); p++) { V i = unpos(e, p), j = i; j.push_back(t); VE_CHECK(ref(s, i) == ref(a, j), "element of a time slice"); } } auto b = ndarray<double>::stack(all); VE_CHECK(b == a, "stacking the time slices gives the array back"); END; }
VE_ENTRY(nd_stack) { V d = shape(); int m = 1 + ve_choice("m", 0, 3); std::vector<ndarray<double>> as; for (int k = 0; k < m; k++) { ndarray<double> a(d); fillsym(a, "x", 1000 * k); as.push_back(a); } auto s = ndarray<double>::stack(as), c = ndarray<double>::concat(as); V e = d, f = d; e.push_back(m); f.insert(f.begin(), m); VE_CHECK(s.shape() == e, "shape of the stack"); VE_CHECK(c.shape() == f, "shape of the concatenation"); for (int k = 0; k < m; k++) for (size_t p = 0; p < prod(d); p++) { V i = unpos(d, p), j = i, l = i; j.push_back(k); l.insert(l.begin(), k); VE_CHECK(ref(s, j) == ref(as[k], i), "stacked element"); VE_CHECK(ref(c, l) == ref(as[k], i), "concatenated element"); } END; }
VE_ENTRY(nd_serialize) { V d = shape(); ndarray<double> a(d); fillsym(a, "x"); ndarray<int> b(d); fillsym(b, "y"); a.set_multicomponents(ve_choice("nc", 0, 2)); a.set_has_time(ve_choice("tv", 0, 2)); std::string s, s2; diy::serializeToString(a, s); diy::serializeToString(b, s2); ndarray<double> a2(V({2, 2}), -1.); ndarray<int> b2; diy::unserializeFromString(s, a2); diy::unserializeFromString(s2, b2); VE_CHECK(a2.shape() == d & b2.shape() == d & a2.multicomponents() == a.multicomponents() & a2.has_time() == a.has_time(), "shape and flags survive"); bool ok = true; for (size_t i = 0; i < prod(d); i++) ok &= (a2[i] == a[i]) & (b2[i] == b[i]); VE_CHECK(ok & a2.size() == a.size(), "elements survive"); V i = anyidx(d); VE_CHECK(a2.at(i) == ref(a, i), "access by multi-index after reading back"); END; }
// P14
static double grid(const double *c, int n, const double *x) { double r = 0; for (int m = 0; m < (1 << n); m++) { double t = c[m]; for (int j = 0; j < n; j++) if (m >> j & 1) t *= x[j]; r += t; } return r; }
VE_ENTRY(ml_exact) { V d = shape(); int n = (int)d.size(), nc = (int)ve_param("nc", 0); double c[2][16]; for (int k = 0; k < 2; k++) for (int m = 0; m < (1 << n); m++) c[k][m] = ve_sym_real("c", k * 16 + m); V full = d; if (nc) full.insert(full.begin(), 2); ndarray<double> a(full); a.set_multicomponents(nc); for (size_t p = 0; p < prod(d); p++) { V i = unpos(d, p); double x[4]; for (int j = 0; j < n; j++) x[j] = (double)i[j]; for (int k = 0; k < (nc ? 2 : 1); k++) a[nc ? p * 2 + k : p] = grid(c[k], n, x); }
  double x[4], v[2] = {7, 7}; bool in = true; for (int j = 0; j < n; j++) { int c = ve_choice("cell", j, (int)d[j] + 2) - 2; double t = ve_sym_real("t", j); VE_ASSUME((t >= 0) & (t < 1)); x[j] = c + t; in &= (x[j] >= 0) & (x[j] < (double)(d[j] - 1)); } bool r = a.mlerp(x, v); VE_CHECK(r == in, "accepted exactly inside the extents"); if (r) for (int k = 0; k < (nc ? 2 : 1); k++) VE_CHECK(ve_near(v[k], grid(c[k], n, x), 1e4), "multilinear fields are reproduced"); END; }
VE_ENTRY(ml_blend) { V d = shape(); int n = (int)d.size(); ndarray<double> a(d); fillsym(a, "f"); double x[4], v = 7; int x0[4]; bool ok = true; for (int j = 0; j < n; j++) ok &= d[j] > 1; VE_ASSUME(ok); for (int j = 0; j < n; j++) { x0[j] = ve_choice("cell", j, (int)d[j] - 1); double t = ve_sym_real("t", j); VE_ASSUME((t >= 0) & (t < 1)); x[j] = x0[j] + t; } bool r = a.mlerp(x, &v); VE_CHECK(r, "inside"); double s = 0; double mn = 0, mx = 0; for (int m = 0; m < (1 << n); m++) { V i; double w = 1; for (int j = 0; j < n; j++) { i.push_back(x0[j] + (m >> j & 1)); w *= (m >> j & 1) ? x[j] - x0[j] : 1 - (x[j] - x0[j]); } s += w * ref(a, i); } VE_CHECK(ve_near(v, s, 1), "blend of the surrounding values"); END; }
VE_ENTRY(ml_range) { V d = shape(); int n = (int)d.size(); ndarray<double> a(d); double x[4], v = 7; double lo = ve_sym_real("lo", 0), hi = ve_sym_real("hi", 0); for (size_t i = 0; i < a.size(); i++) { double t = ve_sym_real("f", (int)i); VE_ASSUME((t >= lo) & (t <= hi)); a[i] = t; } for (int j = 0; j < n; j++) { x[j] = n == 1 ? ve_sym_real("x", j) : ve_choice("x", j, 4 * (int)d[j] - 3) / 4.0; VE_ASSUME((x[j] >= 0) & (x[j] < (double)d[j] - 1)); } bool r = a.mlerp(x, &v); VE_CHECK(r & ve_le(lo, v) & ve_le(v, hi), "within the range of the values"); END; }
VE_ENTRY(ml_float) { V d = shape(); int n = (int)d.size(); ndarray<float> a(d); for (size_t i = 0; i < a.size(); i++) a[i] = (float)(3 * i * i + 1); V i = anyidx(d); float x[4], v = 7; for (int j = 0; j < n; j++) { VE_ASSUME(i[j] + 1 < d[j]); x[j] = (float)i[j]; } bool r = a.mlerp(x, &v); VE_CHECK(r & (v == ref(a, i)), "grid points"); END; }
VE_ENTRY(bl3) { double Vv[4][3], F[12], al = ve_sym_real("al", 0), be = ve_sym_real("be", 0), r1[3], r2[3], r3[3], r4[3]; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) F[k * 4 + i] = Vv[i][k] = ve_sym_real("v", 3 * i + k); bilinear_interpolation3(Vv, al, be, r1); bilinear_interpolation3(F, al, be, r2); bilinear_interpolation3_location(Vv, al, be, r3); bilinear_interpolation3_location(F, al, be, r4); for (int k = 0; k < 3; k++) { double e = Vv[0][k] * (1 - al) * (1 - be) + Vv[1][k] * al * (1 - be) + Vv[2][k] * al * be + Vv[3][k] * (1 - al) * be; VE_CHECK(ve_near(r1[k], e) & ve_near(r2[k], e) & ve_near(r3[k], e) & ve_near(r4[k], e), "bilinear blend of the four corners in cyclic order"); } END; }
VE_ENTRY(tl3) { double Vv[8][3], x[3], r[3]; for (int i = 0; i < 3; i++) x[i] = ve_sym_real("x", i); for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) Vv[i][k] = ve_sym_real("v", 3 * i + k); trilinear_interpolation3(Vv, x[0], x[1], x[2], r); for (int k = 0; k < 3; k++) { double e = 0; for (int m = 0; m < 8; m++) e += Vv[m][k] * (m & 4 ? x[0] : 1 - x[0]) * (m & 2 ? x[1] : 1 - x[1]) * (m & 1 ? x[2] : 1 - x[2]); VE_CHECK(ve_near(r[k], e), "trilinear blend of the eight corners"); } END; }
// P16
VE_ENTRY(cv2) { int mx = (int)ve_param("max", 3); size_t dx = 1 + ve_choice("dx", 0, mx), dy = 1 + ve_choice("dy", 0, mx), kx = 1 + ve_choice("kx", 0, mx), ky = 1 + ve_choice("ky", 0, mx), pd = ve_choice("pad", 0, 3); VE_ASSUME((dx + 2 * pd >= kx) & (dy + 2 * pd >= ky)); ndarray<double> a(V({dx, dy})), k(V({kx, ky})); fillsym(a, "a"); fillsym(k, "k"); auto r = conv2D(a, k, pd); size_t rx = dx + 2 * pd - kx + 1, ry = dy + 2 * pd - ky + 1; VE_CHECK(r.shape() == V({rx, ry}), "size of the result"); for (size_t y = 0; y < ry; y++) for (size_t x = 0; x < rx; x++) { double s = 0; for (size_t j = 0; j < ky; j++) for (size_t i = 0; i < kx; i++) { long X = (long)x + i - pd, Y = (long)y + j - pd; if (X >= 0 && X < (long)dx && Y >= 0 && Y < (long)dy) s += a.std_vector()[X + Y * dx] * k.std_vector()[i + j * kx]; } VE_CHECK(ve_near(r.std_vector()[x + y * rx], s / (double)(kx * ky), 1), "entry equals the averaged kernel sum over the padded input"); } END; }
VE_ENTRY(cv3) { int mx = (int)ve_param("max", 2); size_t d[3], k[3], r[3], pd = ve_choice("pad", 0, 2); bool ok = true; for (int i = 0; i < 3; i++) { d[i] = 1 + ve_choice("d", i, mx + (i == 0)); k[i] = 1 + ve_choice("ks", i, mx); ok &= d[i] + 2 * pd >= k[i]; r[i] = d[i] + 2 * pd - k[i] + 1; } VE_ASSUME(ok); ndarray<double> a(V({d[0], d[1], d[2]})), q(V({k[0], k[1], k[2]})); fillsym(a, "a"); fillsym(q, "k"); auto R = conv3D(a, q, pd); VE_CHECK(R.shape() == V({r[0], r[1], r[2]}), "size of the result"); for (size_t z = 0; z < r[2]; z++) for (size_t y = 0; y < r[1]; y++) for (size_t x = 0; x < r[0]; x++) { double s = 0; for (size_t l = 0; l < k[2]; l++) for (size_t j = 0; j < k[1]; j++) for (size_t i = 0; i < k[0]; i++) { long X = (long)x + i - pd, Y = (long)y + j - pd, Z = (long)z + l - pd; if (X >= 0 && X < (long)d[0] && Y >= 0 && Y < (long)d[1] && Z >= 0 && Z < (long)d[2]) s += a.std_vector()[X + (Y + Z * d[1]) * d[0]] * q.std_vector()[i + (j + l * k[1]) * k[0]]; } VE_CHECK(ve_near(R.std_vector()[x + (y + z * r[1]) * r[0]], s / (double)(k[0] * k[1] * k[2]), 1), "entry equals the averaged kernel sum over the padded input"); } END; }
static void kern(const std::vector<double> &k, const std::vector<double> &mirror) { double s = 0; for (size_t i = 0; i < k.size(); i++) { VE_CHECK(k[i] > 0, "kernel entries are positive"); VE_CHECK(ve_near(k[i], mirror[i]), "kernel is symmetric"); s += k[i]; } VE_CHECK(ve_native() ? std::fabs(s - 1) < 1e-6 : (s > 1 - 1e-9) & (s < 1 + 1e-9), "kernel entries sum to one"); }
static std::vector<double> flip(const std::vector<double> &v, V d, int ax) { std::vector<double> r(v.size()); for (size_t p = 0; p < v.size(); p++) { V i = unpos(d, p); i[ax] = d[ax] - 1 - i[ax]; r[p] = v[pos(d, i)]; } return r; }
static double sig() { static const double s[] = {0.5, 1, 2.25, 10}; return s[ve_choice("sigma", 0, 4)]; }
VE_ENTRY(gk) { double sg = sig(); int nd = (int)ve_param("nd", 1); V d; for (int i = 0; i < nd; i++) d.push_back(1 + ve_choice("gk", i, (int)ve_param("max", 5))); std::vector<double> k = nd == 1 ? gaussian_kernel<double>(sg, d[0]) : nd == 2 ? gaussian_kernel2D<double>(sg, d[0], d[1]).std_vector() : gaussian_kernel3D<double>(sg, d[0], d[1], d[2]).std_vector(); VE_CHECK(k.size() == prod(d), "kernel size"); for (int i = 0; i < nd; i++) kern(k, flip(k, d, i));
  for (size_t p = 0; p < k.size(); p++) { V i = unpos(d, p); for (int a = 0; a < nd; a++) if (2 * i[a] + 1 < d[a]) { V j = i; j[a]++; VE_CHECK(k[pos(d, j)] >= k[p], "kernel decreases away from the center"); } } END; }
VE_ENTRY(cvg) { int nd = (int)ve_param("nd", 2); size_t ks = 1 + ve_choice("ks", 0, 2), pd = ve_choice("pad", 0, 2); V d(nd, 2); ndarray<double> a(d); fillsym(a, "a"); auto r = conv_gaussian<double>(a, 1.0, ks, pd); ndarray<double> k = nd == 2 ? gaussian_kernel2D<double>(1.0, ks, ks) : gaussian_kernel3D<double>(1.0, ks, ks, ks); auto e = nd == 2 ? conv2D(a, k, pd) : conv3D(a, k, pd); VE_CHECK(r == e, "gaussian convolution is convolution with the gaussian kernel"); END; }
