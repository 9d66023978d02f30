/* A model of the MPI world for symbolic execution and native replay. Every
   process is a function that is run again from its start whenever the data it
   waited for has become available: a collective stores what this process
   contributes and either completes (everybody's contribution is there) or
   leaves the function by throwing mpiw::pending. */
#pragma once
#include "ve.h"
#include <string>
#include <vector>
#include <cstring>
#include <cstddef>
typedef int MPI_Comm, MPI_Op, MPI_Request, MPI_File, MPI_Win, MPI_Info; typedef long long MPI_Offset; typedef long MPI_Aint;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
typedef int MPI_Datatype; // size | kind << 8
#define T_(k, t) (int)(sizeof(t) | (k) << 8)
enum { MPI_SUCCESS = 0, MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1, MPI_COMM_NULL = 0, MPI_COMM_SELF = 1, MPI_COMM_WORLD = 2, MPI_FILE_NULL = 0, MPI_INFO_NULL = 0 };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_LOR, MPI_REPLACE, MPI_NO_OP };
enum { MPI_BYTE = T_(0, char), MPI_CHAR = T_(1, char), MPI_INT = T_(2, int), MPI_UNSIGNED = T_(3, unsigned), MPI_LONG = T_(4, long), MPI_UNSIGNED_LONG = T_(5, unsigned long), MPI_LONG_LONG_INT = T_(6, long long), MPI_UNSIGNED_LONG_LONG = T_(7, unsigned long long), MPI_FLOAT = T_(8, float), MPI_DOUBLE = T_(9, double) };
enum { MPI_MODE_RDONLY = 1, MPI_MODE_WRONLY = 2, MPI_MODE_RDWR = 4, MPI_MODE_CREATE = 8, MPI_MODE_EXCL = 16, MPI_MODE_DELETE_ON_CLOSE = 32, MPI_MODE_UNIQUE_OPEN = 64, MPI_MODE_SEQUENTIAL = 128, MPI_MODE_APPEND = 256, MPI_MODE_NOSUCCEED = 1, MPI_MODE_NOSTORE = 2, MPI_MODE_NOPUT = 4, MPI_MODE_NOPRECEDE = 8, MPI_MODE_NOCHECK = 16, MPI_LOCK_SHARED = 1, MPI_LOCK_EXCLUSIVE = 2 };
namespace mpiw {
struct pending {};
struct contrib { int kind, root, type; std::vector<int> counts, displs; std::string data; };
inline int np = 1, rank = 0; inline size_t call = 0; inline std::vector<std::vector<contrib>> sent; inline bool progress = false;
inline int tsize(MPI_Datatype t) { return t & 0xff; }
enum { BARRIER, BCAST, GATHER, ALLGATHER, SCATTER, ALLTOALL, REDUCE, ALLREDUCE };
// contribute and wait for all; returns the contributions of all processes
inline std::vector<contrib> exchange(const contrib &c) {
  size_t k = call++; auto &mine = sent[rank]; if (mine.size() == k) { mine.push_back(c); progress = true; }
  for (int r = 0; r < np; r++) if (sent[r].size() <= k) throw pending();
  std::vector<contrib> all; for (int r = 0; r < np; r++) { auto &o = sent[r][k]; VE_CHECK((o.kind == c.kind) & (o.root == c.root), "all processes take part in the same collective operation"); if ((o.kind != c.kind) | (o.root != c.root)) throw pending(); all.push_back(o); } return all;
}
inline std::string bytes(const void *p, size_t n) { return n ? std::string((const char *)p, n) : std::string(); }
inline void put(void *dst, const std::string &s) { if (s.size()) memcpy(dst, s.data(), s.size()); }
template <typename F> void run(int n, F f) { np = n; sent.assign(n, {}); std::vector<bool> done(n, false); int left = n; 
  for (int round = 0; left > 0; round++) { progress = false; int fin = 0; for (int r = 0; r < n; r++) { if (done[r]) continue; rank = r; call = 0; try { f(r); done[r] = true; fin++; left--; } catch (pending &) {} } bool stuck = !fin & !progress; VE_CHECK(!stuck, "no process waits forever"); if (stuck) return; }
  for (int r = 0; r < n; r++) VE_CHECK(sent[r].size() == sent[0].size(), "all processes take part in every collective operation"); }
}
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = mpiw::rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = mpiw::np; return 0; }
inline int MPI_Barrier(MPI_Comm) { mpiw::exchange({mpiw::BARRIER, 0}); return 0; }
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm) { size_t b = (size_t)n * mpiw::tsize(t); bool me = mpiw::rank == root; auto a = mpiw::exchange({mpiw::BCAST, root, t, {}, {}, me ? mpiw::bytes(p, b) : ""}); VE_CHECK(a[root].data.size() == b, "sizes of sender and receiver match"); if (!me & (a[root].data.size() == b)) mpiw::put(p, a[root].data); return 0; }
namespace mpiw { inline void place(const std::vector<contrib> &a, void *r, const int *rc, const int *rd, int one, MPI_Datatype rt) { int s = tsize(rt); for (int i = 0; i < np; i++) { size_t c = (size_t)(rc ? rc[i] : one) * s, d = (size_t)(rc ? rd[i] : one * i) * s; VE_CHECK(a[i].data.size() == c, "sizes of sender and receiver match"); if (a[i].data.size() == c) put((char *)r + d, a[i].data); } } }
inline int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm) { auto a = mpiw::exchange({mpiw::GATHER, root, st, {}, {}, mpiw::bytes(s, (size_t)sn * mpiw::tsize(st))}); if (mpiw::rank == root) mpiw::place(a, r, 0, 0, rn, rt); return 0; }
inline int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm) { auto a = mpiw::exchange({mpiw::GATHER, root, st, {}, {}, mpiw::bytes(s, (size_t)sn * mpiw::tsize(st))}); if (mpiw::rank == root) mpiw::place(a, r, rc, rd, 0, rt); return 0; }
inline int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm) { auto a = mpiw::exchange({mpiw::ALLGATHER, 0, st, {}, {}, mpiw::bytes(s, (size_t)sn * mpiw::tsize(st))}); mpiw::place(a, r, 0, 0, rn, rt); return 0; }
inline int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm) { auto a = mpiw::exchange({mpiw::ALLGATHER, 0, st, {}, {}, mpiw::bytes(s, (size_t)sn * mpiw::tsize(st))}); mpiw::place(a, r, rc, rd, 0, rt); return 0; }
inline int MPI_Scatterv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm) { using namespace mpiw; contrib c{SCATTER, root, st}; int z = tsize(st); if (mpiw::rank == root) for (int i = 0; i < np; i++) { c.counts.push_back(sc[i] * z); c.displs.push_back((int)c.data.size()); c.data += bytes((const char *)s + (size_t)sd[i] * z, (size_t)sc[i] * z); } auto a = exchange(c); size_t n = (size_t)rn * tsize(rt); VE_CHECK((size_t)a[root].counts[mpiw::rank] == n, "sizes of sender and receiver match"); if ((size_t)a[root].counts[mpiw::rank] == n) put(r, a[root].data.substr(a[root].displs[mpiw::rank], n)); return 0; }
inline int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm) { using namespace mpiw; contrib c{ALLTOALL, 0, st}; int z = tsize(st), y = tsize(rt); for (int i = 0; i < np; i++) { c.counts.push_back(sc[i] * z); c.displs.push_back((int)c.data.size()); c.data += bytes((const char *)s + (size_t)sd[i] * z, (size_t)sc[i] * z); } auto a = exchange(c); for (int i = 0; i < np; i++) { size_t n = (size_t)rc[i] * y; bool ok = (size_t)a[i].counts[mpiw::rank] == n; VE_CHECK(ok, "sizes of sender and receiver match"); if (ok) put((char *)r + (size_t)rd[i] * y, a[i].data.substr(a[i].displs[mpiw::rank], n)); } return 0; }
#define U_(f) template <class... A> inline int f(A...) { ve_fail("an MPI operation outside the model was used"); return 1; }
U_(MPI_Gatherv_) U_(MPI_Send) U_(MPI_Recv) U_(MPI_Isend) U_(MPI_Issend) U_(MPI_Irecv) U_(MPI_Probe) U_(MPI_Iprobe) U_(MPI_Get_count) U_(MPI_Iallreduce) U_(MPI_Reduce) U_(MPI_Allreduce) U_(MPI_Scan) U_(MPI_Ibcast) U_(MPI_Ibarrier) U_(MPI_Alltoall) U_(MPI_Put) U_(MPI_Get) U_(MPI_Init_thread) U_(MPI_Fetch_and_op) U_(MPI_Wait) U_(MPI_Test) U_(MPI_Test_cancelled) U_(MPI_Cancel) U_(MPI_Finalize)
U_(MPI_Comm_split) U_(MPI_Comm_free) U_(MPI_Comm_dup) U_(MPI_File_write_at_all) U_(MPI_File_write_at) U_(MPI_File_set_size) U_(MPI_File_read_at_all) U_(MPI_File_read_at) U_(MPI_File_open) U_(MPI_File_get_size) U_(MPI_File_close) U_(MPI_Win_unlock_all) U_(MPI_Win_unlock) U_(MPI_Win_sync) U_(MPI_Win_lock_all) U_(MPI_Win_lock) U_(MPI_Win_free) U_(MPI_Win_flush_local_all) U_(MPI_Win_flush_local) U_(MPI_Win_flush_all) U_(MPI_Win_flush) U_(MPI_Win_fence) U_(MPI_Win_create)
