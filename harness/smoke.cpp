#include "ve.h"
#include <map>
#include <vector>
#include <set>
#include <ftk/mesh/lattice.hh>
VE_ENTRY(smoke_map) {
  std::map<int,int> m; int a = ve_int("a",0,0,5), b = ve_int("b",0,0,5);
  m[a] = 1; m[b] = 2; VE_CHECK(m[b]==2, "last"); VE_CHECK(m.size() == (a==b?1:2), "size"); ve_reach("end");
}
VE_ENTRY(smoke_lattice) {
  std::vector<size_t> st, sz; for (int i=0;i<2;i++) { st.push_back(ve_int("st",i,-3,3)); sz.push_back(ve_int("sz",i,1,4)); }
  ftk::lattice l(st, sz);
  std::vector<int> p; for (int i=0;i<2;i++) p.push_back(ve_int("p",i,-4,8));
  bool in = true; for (int i=0;i<2;i++) in = in & (p[i] >= (int)st[i]) & (p[i] < (int)(st[i]+sz[i]));
  VE_ASSUME(in);
  int x = l.to_integer(p); VE_CHECK(x >= 0 && x < (int)l.n(), "range");
  auto q = l.from_integer(x); VE_CHECK(q[0]==p[0] && q[1]==p[1], "roundtrip"); ve_reach("end");
}
