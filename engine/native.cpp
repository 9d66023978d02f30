// Native implementation of the harness interface: replays one assignment of the
// symbolic inputs against the real code.
//   prog ENTRY INPUTFILE [k=v ...]      exit 1 + "REPLAY-VIOLATION <msg>" if a check fails
#include <unistd.h>
#include "../harness/ve.h"
#include <map>
#include <string>
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
static std::map<std::string, std::string> in; static std::map<std::string, long long> params; static bool any = false; static int reached = 0;
static double num(const std::string &s) { size_t p = s.find('/'); if (p == std::string::npos) return strtod(s.c_str(), 0); return (double)(strtold(s.substr(0, p).c_str(), 0) / strtold(s.substr(p + 1).c_str(), 0)); }
static std::string *find(const char *n, int i) { auto it = in.find(std::string(n) + " " + std::to_string(i)); return it == in.end() ? nullptr : &it->second; }
extern "C" {
uint64_t ve_sym_bv(const char *n, int i, int bits) { auto *s = find(n, i); uint64_t v = s ? strtoull(s->c_str(), 0, 10) : 0; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
int64_t ve_sym_int(const char *n, int i, int64_t lo, int64_t hi) { auto *s = find(n, i); return s ? strtoll(s->c_str(), 0, 10) : (lo > 0 ? lo : hi < 0 ? hi : 0); }
double ve_sym_real(const char *n, int i) { auto *s = find(n, i); return s ? num(*s) : 0; }
int ve_choice(const char *n, int i, int c) { auto *s = find(n, i); return s ? atoi(s->c_str()) : 0; }
int64_t ve_concretize(int64_t v) { return v; }
int64_t ve_param(const char *n, int64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
void ve_assume(int c) { if (!c) { fflush(stdout); printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(any ? 1 : 4); } }
void ve_check(int c, const char *m) { printf("TRACE check %s %d\n", m, c ? 1 : 0); if (!c) { any = true; printf("REPLAY-VIOLATION %s\n", m); fflush(stdout); } }
void ve_fail(const char *m) { any = true; printf("REPLAY-VIOLATION %s\n", m); fflush(stdout); _exit(1); }
void ve_reach(const char *) { reached++; }
void ve_merge_begin() {} void ve_merge_end() {} int ve_lazy(int) { return 0; }
int ve_automerge(int) { return 0; }
int ve_native() { return 1; } int ve_is_sym(int64_t) { return 0; }
void ve_end_path() { fflush(stdout); _exit(any ? 1 : 0); }
void ve_note(const char *) {}
void ve_trace(const char *n, int64_t v) { printf("TRACE %s %lld\n", n, (long long)v); }
void ve_trace_real(const char *n, double v) { printf("TRACE %s %.17g\n", n, v); }
void ve_dump(const char *, int64_t) {} void ve_dump_real(const char *, double) {}
}
int main(int argc, char **argv) {
  if (argc < 3) return 3; std::ifstream f(argv[2]); std::string n, i, k, v; while (f >> n >> i >> k >> v) in[n + " " + i] = v;
  for (int a = 3; a < argc; a++) { const char *e = strchr(argv[a], '='); if (e) params[std::string(argv[a], e - argv[a])] = atoll(e + 1); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  fn(); fflush(stdout); return any ? 1 : 0;
}
