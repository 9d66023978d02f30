// Model of tbb::concurrent_hash_map by its documented contract (iteration order is unspecified).
#pragma once
#include <vector>
#include <utility>
#include <cstddef>
extern "C" int64_t ve_param(const char *name, int64_t dflt);
namespace tbb {
template <class K> struct tbb_hash_compare { static size_t hash(const K &) { return 0; } static bool equal(const K &a, const K &b) { return a == b; } };
template <class K, class V, class HC = tbb_hash_compare<K>, class A = int> struct concurrent_hash_map {
  typedef std::pair<const K, V> value_type;
  std::vector<value_type *> v; HC hc;
  concurrent_hash_map() {}
  concurrent_hash_map(const concurrent_hash_map &o) { for (auto p : o.v) v.push_back(new value_type(*p)); }
  concurrent_hash_map &operator=(const concurrent_hash_map &o) { if (this != &o) { clear(); for (auto p : o.v) v.push_back(new value_type(*p)); } return *this; }
  ~concurrent_hash_map() { clear(); }
  struct const_accessor { value_type *p = nullptr; bool empty() const { return !p; } void release() { p = nullptr; } const value_type &operator*() const { return *p; } const value_type *operator->() const { return p; } };
  struct accessor { value_type *p = nullptr; bool empty() const { return !p; } void release() { p = nullptr; } value_type &operator*() const { return *p; } value_type *operator->() const { return p; } operator const_accessor() const { return {p}; } };
  value_type *get(const K &k) const { size_t h = hc.hash(k); for (auto p : v) if (hc.hash(p->first) == h && hc.equal(p->first, k)) return p; return nullptr; }
  bool ins(const value_type &x, value_type *&r) { r = get(x.first); if (r) return false; r = new value_type(x); if (ve_param("hashorder", 0)) v.insert(v.begin() + v.size() / 2, r); else v.push_back(r); return true; }
  bool insert(const value_type &x) { value_type *r; return ins(x, r); }
  bool insert(accessor &a, const K &k) { return ins(value_type(k, V()), a.p); }
  bool insert(const_accessor &a, const K &k) { return ins(value_type(k, V()), a.p); }
  bool insert(accessor &a, const value_type &x) { return ins(x, a.p); }
  bool insert(const_accessor &a, const value_type &x) { return ins(x, a.p); }
  bool find(accessor &a, const K &k) { a.p = get(k); return a.p; }
  bool find(const_accessor &a, const K &k) const { a.p = get(k); return a.p; }
  size_t count(const K &k) const { return get(k) ? 1 : 0; }
  bool erase(const K &k) { for (size_t i = 0; i < v.size(); i++) if (hc.equal(v[i]->first, k)) { delete v[i]; v.erase(v.begin() + i); return true; } return false; }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  void clear() { for (auto p : v) delete p; v.clear(); }
  template <class X, class Vec> struct It { const Vec *c; size_t i; X &operator*() const { return *(*c)[i]; } X *operator->() const { return (*c)[i]; } It &operator++() { ++i; return *this; } It operator++(int) { It t = *this; ++i; return t; } bool operator==(const It &o) const { return i == o.i; } bool operator!=(const It &o) const { return i != o.i; } };
  typedef It<value_type, std::vector<value_type *>> iterator; typedef It<const value_type, std::vector<value_type *>> const_iterator;
  iterator begin() { return {&v, 0}; } iterator end() { return {&v, v.size()}; }
  const_iterator begin() const { return {&v, 0}; } const_iterator end() const { return {&v, v.size()}; }
};
}
