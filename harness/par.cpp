// P09 parallel loops
#include "ve.h"
#include <set>
#include <map>
#include <mutex>
#include <ftk/object.hh>
using namespace ftk;
static std::mutex mx_;
#define LOCK std::lock_guard<std::mutex> g(mx_);
#define END ve_reach("end")
#ifndef BACKEND
#define BACKEND FTK_THREAD_PTHREAD
#endif
VE_ENTRY(par_for) { int mx = (int)ve_param("max", 6), mt = (int)ve_param("maxthreads", 4); int n = ve_choice("n", 0, mx + 1), nt = 1 + ve_choice("nthreads", 0, mt); std::vector<int> cnt(n + 1, 0); int other = 0; object::parallel_for(n, [&](int i) { LOCK if (i >= 0 && i < n) cnt[i]++; else other++; }, BACKEND, nt, false); for (int i = 0; i < n; i++) VE_CHECK(cnt[i] == 1, "every task runs exactly once"); VE_CHECK(other == 0, "no task outside the range runs"); END; }
// one arbitrary index of a loop with many tasks and threads
VE_ENTRY(par_for_many) { int n = (int)ve_param("n", 40), nt = (int)ve_param("nthreads", 9); int k = ve_int("k", 0, -50, 100); int cnt = 0, tot = 0; ve_automerge(1); object::parallel_for(n, [&](int i) { LOCK cnt += (int)(i == k); tot++; }, BACKEND, nt, false); ve_automerge(0); VE_CHECK(cnt == (int)((k >= 0) & (k < n)), "runs once if inside, never if outside"); VE_CHECK(tot == n, "number of calls"); END; }
VE_ENTRY(par_set) { int n = ve_choice("n", 0, 5), nt = 1 + ve_choice("nthreads", 0, 3); std::set<int> s; for (int i = 0; i < n; i++) s.insert(i * 7 - 3); std::map<int, int> cnt; object::parallel_for<int>(s, [&](const int &i) { LOCK cnt[i]++; }, BACKEND, nt, false); VE_CHECK(cnt.size() == s.size(), "nothing else"); for (int x : s) VE_CHECK(cnt.count(x) && cnt[x] == 1, "every element of the set is handled exactly once"); END; }
VE_ENTRY(par_container) { int n = ve_choice("n", 0, 5), nt = 1 + ve_choice("nthreads", 0, 3); std::map<int, int> s; for (int i = 0; i < n; i++) s[i * 3 - 5] = 0; object::parallel_for_container<std::map<int, int>>(s, [&](std::map<int, int>::iterator it) { it->second++; }, BACKEND, nt, false); VE_CHECK(s.size() == (size_t)n, "size"); for (auto &kv : s) VE_CHECK(kv.second == 1, "every entry is handled exactly once"); std::multimap<int, int> mm; for (int i = 0; i < n; i++) mm.insert({i / 2, 0}); object::parallel_for_container<std::multimap<int, int>>(mm, [&](std::multimap<int, int>::iterator it) { it->second += 1; }, BACKEND, nt, false); for (auto &kv : mm) VE_CHECK(kv.second == 1, "duplicate keys too"); END; }
