#pragma once
#include <unordered_set>
namespace tbb {
template <class K> struct tbb_hash { size_t operator()(const K &) const { return 0; } };
template <class T> struct tbb_allocator {};
template <class K, class H = tbb_hash<K>, class E = std::equal_to<K>, class A = tbb_allocator<K>> struct concurrent_unordered_set { std::vector<K> v; size_t size() const { return v.size(); } auto begin() const { return v.begin(); } auto end() const { return v.end(); } void clear() { v.clear(); } void insert(const K &k) { for (auto &x : v) if (E()(x, k)) return; v.push_back(k); } };
}
