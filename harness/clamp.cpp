// P27 clamping
#include "ve.h"
#include <ftk/numeric/clamp.hh>
using namespace ftk;
static double R(const char *n, int i) { return ve_sym_real(n, i); }
#define NEAR(a, b, m) VE_CHECK(ve_near(a, b, 1e3), m)
#define END ve_reach("end")
VE_ENTRY(c_clamp) { double x = R("x", 0), a = R("a", 0), b = R("b", 0); VE_ASSUME(a <= b); double y = ftk::clamp(x, a, b); VE_CHECK((y >= a) & (y <= b), "between the bounds"); VE_CHECK(!((x >= a) & (x <= b)) | (y == x), "unchanged if inside"); VE_CHECK((x >= a) | (y == a), "lower bound below"); VE_CHECK((x <= b) | (y == b), "upper bound above"); int xi = ve_int("xi", 0, -1000000, 1000000), ai = ve_int("ai", 0, -1000000, 1000000), bi = ve_int("bi", 0, -1000000, 1000000); VE_ASSUME(ai <= bi); int yi = ftk::clamp(xi, ai, bi); VE_CHECK((yi >= ai) & (yi <= bi) & ((xi < ai) | (xi > bi) | (yi == xi)) & ((yi == xi) | (yi == ai) | (yi == bi)), "integers"); END; }
template <int n> static void bary() { double x[n], y[n]; double s = 0; int in = 1; for (int i = 0; i < n; i++) { x[i] = y[i] = R("x", i); s += x[i]; in &= x[i] >= 0; } ve_lazy(ve_param("lazy", 0)); ftk::clamp_barycentric<n, double>(y); double t = 0; for (int i = 0; i < n; i++) { t += y[i]; VE_CHECK(y[i] >= 0, "non-negative"); VE_CHECK(y[i] <= 1 + 1e-12, "at most one"); } VE_CHECK((t > 1 - 1e-12) & (t < 1 + 1e-12), "sum is one"); if (in & (s == 1)) for (int i = 0; i < n; i++) NEAR(y[i], x[i], "coordinates inside the simplex are kept"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VE_CHECK(ve_native() | !(x[i] <= x[j]) | (y[i] <= y[j]), "order of the coordinates is kept"); END; }
VE_ENTRY(c_bary2) { bary<2>(); }
VE_ENTRY(c_bary3) { bary<3>(); }
VE_ENTRY(c_bary4) { bary<4>(); }
// infinite and undefined coordinates (concrete special values in every position)
template <int n> static void baryspec() { double x[n]; const double sp[3] = {INFINITY, -INFINITY, NAN}; int w = ve_choice("which", 0, n), k = ve_choice("kind", 0, 3); for (int i = 0; i < n; i++) x[i] = i == w ? sp[k] : R("x", i); ftk::clamp_barycentric<n, double>(x); if (k < 2) { double t = 0; for (int i = 0; i < n; i++) { t += x[i]; VE_CHECK(x[i] >= 0, "non-negative"); } VE_CHECK((t > 1 - 1e-12) & (t < 1 + 1e-12), "sum is one"); } END; }
VE_ENTRY(c_spec3) { baryspec<3>(); }
