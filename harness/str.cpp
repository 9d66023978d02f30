// P37 strings and file names
#include "ve.h"
#include <cstring>
#include <vector>
#include <string>
#include <unistd.h>
#include <ftk/config.hh>
#include <ftk/external/diy/mpi.hpp>
#include <ftk/utils/string.hh>
#include <ftk/io/util.hh>
using namespace ftk;
#define END ve_reach("end")
// any bytes, length a branch
static std::string any(const char *n, int mx, int lo = 0) { int l = lo + ve_choice(n, 99, mx - lo + 1); std::string s; for (int i = 0; i < l; i++) s.push_back((char)ve_sym_bv(n, i, 8)); return s; }
static char low(char c) { return c + ((c >= 'A') & (c <= 'Z') ? 32 : 0); }
VE_ENTRY(st_start) { std::string v = any("v", (int)ve_param("n", 3)), p = any("p", (int)ve_param("m", 2)); bool want = p.size() <= v.size(); for (size_t i = 0; i < p.size() && i < v.size(); i++) want &= v[i] == p[i]; VE_CHECK(starts_with(v, p) == want, "prefix test"); END; }
VE_ENTRY(st_end) { std::string v = any("v", (int)ve_param("n", 3)), p = any("p", (int)ve_param("m", 2)); bool want = p.size() <= v.size(), wl = want; for (size_t i = 0; i < p.size() && p.size() <= v.size(); i++) { char a = v[v.size() - p.size() + i]; want &= a == p[i]; wl &= low(a) == low(p[i]); } VE_CHECK(ends_with(v, p) == want, "suffix test"); VE_CHECK(ends_with_lower(v, p) == wl, "suffix test without case"); END; }
VE_ENTRY(st_low) { std::string v = any("v", (int)ve_param("n", 3)), o = v, l = to_lower_cases(v); VE_CHECK(l.size() == v.size() & v == o, "length, argument unchanged"); for (size_t i = 0; i < v.size(); i++) VE_CHECK(l[i] == low(v[i]), "only capital letters change"); END; }
VE_ENTRY(st_ext) { static const struct { const char *e; int k; } T[] = {{"bin", FILE_EXT_BIN}, {"binary", FILE_EXT_BIN}, {"nc", FILE_EXT_NETCDF}, {"netcdf", FILE_EXT_NETCDF}, {"h5", FILE_EXT_HDF5}, {"hdf5", FILE_EXT_HDF5}, {"bp", FILE_EXT_BP}, {"adios2", FILE_EXT_BP}, {"npy", FILE_EXT_NUMPY}, {"numpy", FILE_EXT_NUMPY}, {"png", FILE_EXT_PNG}, {"vti", FILE_EXT_VTI}, {"vtp", FILE_EXT_VTP}, {"vtu", FILE_EXT_VTU}, {"vtk", FILE_EXT_VTK}, {"ply", FILE_EXT_PLY}, {"stl", FILE_EXT_STL}}; int k = ve_choice("which", 0, 17); std::string ext = T[k].e, f = any("f", (int)ve_param("n", 2)); f.push_back('.'); for (char &c : ext) { bool up = ve_sym_bv("up", (int)(&c - &ext[0]), 1) != 0; f.push_back(up & (c >= 'a') & (c <= 'z') ? c - 32 : c); } VE_CHECK(file_extension(f) == T[k].k, "type by extension, any case"); VE_CHECK(file_extension(f, "auto") == T[k].k & file_extension(f, "") == T[k].k, "automatic format"); VE_CHECK(file_extension(f, "vtp") == FILE_EXT_VTP & file_extension("x.vtp", ext) == T[k].k, "explicit format wins"); END; }
// an unknown extension of up to three letters
VE_ENTRY(st_noext) { std::string f = any("f", 3, 3); static const char *T[] = {"nc", "h5", "bp", "bin", "npy", "png", "vti", "vtp", "vtu", "vtk", "ply", "stl"}; bool known = false; for (auto t : T) { size_t l = strlen(t); bool e = true; for (size_t i = 0; i < l; i++) e &= low(f[f.size() - l + i]) == t[i]; known |= e; } VE_CHECK((file_extension(f) != FILE_EXT_NULL) == known, "other names have no known type"); END; }
VE_ENTRY(st_remove) { std::string v = any("v", (int)ve_param("n", 4)), r = remove_file_extension(v); int last = -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == '.') last = (int)i; size_t want = last < 0 ? v.size() : (size_t)last; VE_CHECK(r.size() == want, "cut at the last dot"); for (size_t i = 0; i < r.size() && i < v.size(); i++) VE_CHECK(r[i] == v[i], "the rest is kept"); END; }
