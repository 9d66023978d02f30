// P39 the same operations in a build without MPI (one process)
#include "ve.h"
#include <map>
#include <set>
#include <ftk/config.hh>
#include <ftk/external/diy/mpi.hpp>
#include <ftk/utils/gather.hh>
#include <ftk/utils/redistribution.hh>
#include <ftk/utils/scatter.hh>
#include <ftk/utils/bcast.hh>
#define END ve_reach("end")
static int pick(const char *n, int i, int lo, int hi) { return (int)ve_concretize(ve_sym_int(n, i, lo, hi)); }
typedef std::map<int, long> M; typedef std::map<size_t, std::map<size_t, long>> MM;
VE_ENTRY(mp_single) { diy::mpi::communicator c; M in; MM im; for (int k = 0; k < 3; k++) if (pick("has", k, 0, 1)) { in[k * 3 - 2] = (long)ve_sym_bv("v", k, 64); im[k][k + 4] = in[k * 3 - 2]; } M a{{7, 7}}, b, d, e, f; MM g; diy::mpi::gather(c, in, a); VE_CHECK(a == in, "gather"); a = in; diy::mpi::gather(c, a, a); VE_CHECK(a == in, "gather in place"); diy::mpi::allgather(c, in, b); VE_CHECK(b == in, "allgather"); diy::mpi::redistribute(c, im, g); VE_CHECK(g == im, "redistribute"); diy::mpi::scatterv(c, std::vector<M>{in}, d); VE_CHECK(d == in, "scatter"); diy::mpi::all2all(c, std::vector<M>{in}, e); VE_CHECK(e == in, "all to all"); f = in; diy::mpi::bcastv(c, f); VE_CHECK(f == in, "broadcast"); END; }
