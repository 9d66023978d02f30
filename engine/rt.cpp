// Models of out-of-line library code for the symbolic executor (linked into
// the harness bitcode; never used natively).  Containers: the tree is kept as a
// plain (unbalanced) search tree; ordering, iteration and node identity are as
// in libstdc++, balance is not observable.
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <cstring>
#include <cstdlib>
#include "../harness/ve.h"
namespace std {
static _Rb_tree_node_base *minn(_Rb_tree_node_base *x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base *maxn(_Rb_tree_node_base *x) { while (x->_M_right) x = x->_M_right; return x; }
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
  // header is marked red and is its root's parent
  if (x->_M_right) return minn(x->_M_right);
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) return maxn(x->_M_left);
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *nxt = inc(z), *prv = (h._M_left == z) ? nullptr : dec(z);
  bool wasR = h._M_right == z, wasL = h._M_left == z;
  _Rb_tree_node_base *r;
  if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left;
  else { // splice successor
    r = minn(z->_M_right);
    if (r->_M_parent != z) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; r->_M_right->_M_parent = r; }
    r->_M_left = z->_M_left; r->_M_left->_M_parent = r;
  }
  _Rb_tree_node_base *p = z->_M_parent;
  if (r) r->_M_parent = p;
  if (h._M_parent == z) h._M_parent = r; else if (p->_M_left == z) p->_M_left = r; else p->_M_right = r;
  if (wasL) h._M_left = (nxt == &h) ? &h : nxt;
  if (wasR) h._M_right = prv ? prv : &h;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    _List_node_base *t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const unsigned short pr[] = {2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087}; for (unsigned i = 0; i < sizeof(pr) / sizeof(pr[0]); i++) if (pr[i] >= n) { _M_next_resize = pr[i]; return pr[i]; } _M_next_resize = n | 1; return n | 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > _M_next_resize || nb < ne + ni) { std::size_t w = ne + ni; if (w < 11) w = 11; if (w >= nb || _M_next_resize == 0) { std::size_t k = nb * 2 > w ? nb * 2 : w; if (nb >= w && _M_next_resize) return {false, 0}; return {true, _M_next_bkt(k)}; } } return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char*)p; size_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
// threads: run to completion either at start or at join, in an order chosen by the solver
struct ThreadSlot { thread::_State *s; int done; };
static ThreadSlot slots[64]; static int nslots = 0; static int tchoice = 0;
static void runSlot(int i) { if (!slots[i].done) { slots[i].done = 1; slots[i].s->_M_run(); } }
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  int i = nslots++; if (i >= 64) ve_fail("engine model: too many threads"); slots[i].s = st.release(); slots[i].done = 0; *(unsigned long*)&_M_id = i + 1;
  // any subset of the started threads may run (to completion) now
  // (parameter sched: 0 all orders, 1 every thread at its start, 2 every thread at its join)
  long mode = ve_param("sched", 0); if (mode == 1) runSlot(i);
  if (mode == 0) for (int k = 0; k < nslots; k++) if (!slots[k].done && ve_choice("sched", tchoice++, 2)) runSlot(k);
}
void thread::join() { int i = (int)*(unsigned long*)&_M_id - 1; if (i < 0) ve_fail("join of non-joinable thread"); runSlot(i); delete slots[i].s; slots[i].s = nullptr; *(unsigned long*)&_M_id = 0; }
void thread::detach() { int i = (int)*(unsigned long*)&_M_id - 1; runSlot(i); *(unsigned long*)&_M_id = 0; }
unsigned thread::hardware_concurrency() noexcept { return (unsigned)ve_param("hwthreads", 2); }
}
// principal complex logarithm
extern "C" __complex__ double clog(__complex__ double z) {
  double re = __real__ z, im = __imag__ z; __complex__ double r;
  if (im == 0) { if (re > 0) { __real__ r = log(re); __imag__ r = 0; } else if (re < 0) { __real__ r = log(-re); __imag__ r = M_PI; } else { __real__ r = -INFINITY; __imag__ r = 0; } return r; }
  __real__ r = log(sqrt(re * re + im * im)); __imag__ r = atan2(im, re); return r;
}
// principal complex square root
extern "C" __complex__ double csqrt(__complex__ double z) {
  double re = __real__ z, im = __imag__ z; __complex__ double r;
  if (im == 0) { if (re < 0) { __real__ r = 0; __imag__ r = sqrt(-re); } else { __real__ r = sqrt(re); __imag__ r = 0; } return r; }
  double h = sqrt(re * re + im * im), a = sqrt((h + re) / 2), b = sqrt((h - re) / 2); __real__ r = a; __imag__ r = im < 0 ? -b : b; return r;
}
