#include <functional>
#include <map>
#include "expr.h"
#include <cassert>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <set>
#include <sstream>
namespace ve {
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static std::unordered_multimap<uint64_t, Expr*> table;
static std::vector<Expr*> all;
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static uint64_t hashq(const mpq_class &q) {
  uint64_t h = mpz_get_ui(q.get_num_mpz_t()); h = mix(h, mpz_size(q.get_num_mpz_t()) * 2 + (sgn(q) < 0)); return mix(h, mpz_get_ui(q.get_den_mpz_t()));
}
static E intern(Expr &t) {
  uint64_t h = mix(t.k * 64 + t.s * 7, t.w); h = mix(h, t.a); h = mix(h, t.b);
  for (auto k : t.kids) h = mix(h, k->id);
  for (auto &q : t.coef) h = mix(h, hashq(q));
  for (auto x : t.exps) h = mix(h, x);
  if (t.big) h = mix(h, mpz_get_ui(t.big->get_mpz_t()));
  if (t.name) h = mix(h, std::hash<std::string>()(*t.name));
  t.hash = h;
  auto r = table.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    Expr *e = it->second;
    if (e->k == t.k && e->s == t.s && e->w == t.w && e->a == t.a && e->b == t.b && e->kids == t.kids && e->coef == t.coef && e->exps == t.exps
        && (!t.big == !e->big) && (!t.big || *t.big == *e->big) && (!t.name == !e->name) && (!t.name || *t.name == *e->name)) {
      if (t.big) delete t.big; if (t.name) delete t.name; return e;
    }
  }
  Expr *n = new Expr(std::move(t)); n->id = all.size(); all.push_back(n); table.emplace(h, n); return n;
}
size_t numExprs() { return all.size(); }
static E mk(Kind k, Sort s, unsigned w, std::vector<E> kids, uint64_t a = 0, uint64_t b = 0) {
  Expr t; t.k = k; t.s = s; t.w = w; t.kids = std::move(kids); t.a = a; t.b = b; return intern(t);
}
// ---------------- Bool
E mkTrue() { static E e = mk(KTrue, SBool, 1, {}); return e; }
E mkFalse() { static E e = mk(KFalse, SBool, 1, {}); return e; }
static E mkVarK(Kind k, Sort s, unsigned w, const std::string &n) { Expr t; t.k = k; t.s = s; t.w = w; t.name = new std::string(n); return intern(t); }
E mkBVar(const std::string &n) { return mkVarK(KBVar, SBool, 1, n); }
E mkNot(E a) {
  if (a->k == KTrue) return mkFalse(); if (a->k == KFalse) return mkTrue(); if (a->k == KNot) return a->kids[0];
  return mk(KNot, SBool, 1, {a});
}
static E nary(Kind k, E a, E b) {
  E unit = k == KAnd ? mkTrue() : mkFalse(), zero = k == KAnd ? mkFalse() : mkTrue();
  if (a == zero || b == zero) return zero; if (a == unit) return b; if (b == unit) return a; if (a == b) return a;
  std::vector<E> v;
  auto add = [&](E e) { if (e->k == k) v.insert(v.end(), e->kids.begin(), e->kids.end()); else v.push_back(e); };
  add(a); add(b);
  std::sort(v.begin(), v.end(), [](E x, E y) { return x->id < y->id; }); v.erase(std::unique(v.begin(), v.end()), v.end());
  if (v.size() < 200) { std::set<E> s(v.begin(), v.end());
    for (E e : v) if (e->k == KNot && s.count(e->kids[0])) return zero;
    // absorption: x & (x | y) = x ; x & (!x | y) = x & y
    Kind dual = k == KAnd ? KOr : KAnd; std::vector<E> nv; bool changed = false;
    for (E e : v) {
      if (e->k == dual) { bool absorbed = false; std::vector<E> rest;
        for (E c : e->kids) { if (s.count(c)) { absorbed = true; break; } if (!s.count(mkNot(c))) rest.push_back(c); }
        if (absorbed) { changed = true; continue; }
        if (rest.size() != e->kids.size()) { changed = true; E r = k == KAnd ? mkFalse() : mkTrue(); for (E c : rest) r = nary(dual, r, c); nv.push_back(r); continue; }
      }
      nv.push_back(e);
    }
    if (changed) { E r = unit; for (E e : nv) r = nary(k, r, e); return r; }
  }
  if (v.size() == 1) return v[0];
  return mk(k, SBool, 1, v);
}
E mkAnd(E a, E b) { return nary(KAnd, a, b); }
E mkOr(E a, E b) {
  if (a->k == KAnd && b->k == KAnd && a->kids.size() + b->kids.size() < 400) { // factor the common conjuncts
    std::set<E> sa(a->kids.begin(), a->kids.end()); std::vector<E> common;
    for (E e : b->kids) if (sa.count(e)) common.push_back(e);
    if (!common.empty()) { std::set<E> sc(common.begin(), common.end()); E ra = mkTrue(), rb = mkTrue(), c = mkTrue();
      for (E e : a->kids) if (!sc.count(e)) ra = mkAnd(ra, e); for (E e : b->kids) if (!sc.count(e)) rb = mkAnd(rb, e);
      for (E e : common) c = mkAnd(c, e); return mkAnd(c, mkOr(ra, rb)); }
  }
  if (a == mkNot(b)) return mkTrue();
  return nary(KOr, a, b);
}
E mkIff(E a, E b) {
  if (a == b) return mkTrue(); if (isTrue(a)) return b; if (isTrue(b)) return a; if (isFalse(a)) return mkNot(b); if (isFalse(b)) return mkNot(a);
  if (a == mkNot(b)) return mkFalse();
  bool neg = false; if (a->k == KNot) { a = a->kids[0]; neg = !neg; } if (b->k == KNot) { b = b->kids[0]; neg = !neg; }
  if (a->id > b->id) std::swap(a, b);
  E r = mk(KIff, SBool, 1, {a, b}); return neg ? mkNot(r) : r;
}
E mkBIte(E c, E a, E b) {
  if (isTrue(c)) return a; if (isFalse(c)) return b; if (a == b) return a;
  if (c->k == KNot) return mkBIte(c->kids[0], b, a);
  if (isTrue(a)) return mkOr(c, b); if (isFalse(a)) return mkAnd(mkNot(c), b);
  if (isTrue(b)) return mkOr(mkNot(c), a); if (isFalse(b)) return mkAnd(c, a);
  if (a == c) return mkOr(c, b); if (b == c) return mkAnd(c, a);
  if (a == mkNot(b)) return mkIff(c, a);
  return mk(KBIte, SBool, 1, {c, a, b});
}
// ---------------- BV
E bvConst(uint64_t v, unsigned w) { if (w > 64) return bvConstBig(mpz_class((unsigned long)v), w); return mk(KBvConst, SBV, w, {}, v & maskw(w)); }
E bvConstBig(const mpz_class &v0, unsigned w) {
  mpz_class v, m = mpz_class(1) << w; mpz_fdiv_r(v.get_mpz_t(), v0.get_mpz_t(), m.get_mpz_t());
  if (w <= 64) return bvConst(mpz_get_ui(v.get_mpz_t()), w);
  Expr t; t.k = KBvConst; t.s = SBV; t.w = w; t.big = new mpz_class(v); return intern(t);
}
mpz_class bvBig(E e) { return e->big ? *e->big : mpz_class((unsigned long)e->a); }
bool bvIsConst(E e, uint64_t &v) { if (e->k != KBvConst || e->big) return false; v = e->a; return true; }
static bool isC(E e) { return e->k == KBvConst; }
static bool isCV(E e, uint64_t v) { return e->k == KBvConst && !e->big && e->a == v; }
static bool isOnes(E e) { return e->k == KBvConst && (e->big ? *e->big == (mpz_class(1) << e->w) - 1 : e->a == maskw(e->w)); }
E bvVar(const std::string &n, unsigned w) { return mkVarK(KBvVar, SBV, w, n); }
static mpz_class sgnBig(const mpz_class &v, unsigned w) { return mpz_tstbit(v.get_mpz_t(), w - 1) ? mpz_class(v - (mpz_class(1) << w)) : v; }
static E foldBin(Kind k, E a, E b) {
  unsigned w = a->w; mpz_class x = bvBig(a), y = bvBig(b), r; mpz_class M = mpz_class(1) << w;
  switch (k) {
  case KBvAdd: r = x + y; break; case KBvMul: r = x * y; break;
  case KBvUdiv: if (y == 0) r = M - 1; else r = x / y; break; case KBvUrem: if (y == 0) r = x; else r = x % y; break;
  case KBvSdiv: { mpz_class sx = sgnBig(x, w), sy = sgnBig(y, w); if (sy == 0) r = sx < 0 ? 1 : -1; else mpz_tdiv_q(r.get_mpz_t(), sx.get_mpz_t(), sy.get_mpz_t()); break; }
  case KBvSrem: { mpz_class sx = sgnBig(x, w), sy = sgnBig(y, w); if (sy == 0) r = sx; else mpz_tdiv_r(r.get_mpz_t(), sx.get_mpz_t(), sy.get_mpz_t()); break; }
  case KBvAnd: r = x & y; break; case KBvOr: r = x | y; break; case KBvXor: r = x ^ y; break;
  case KBvShl: r = y >= w ? mpz_class(0) : mpz_class(x << y.get_ui()); break;
  case KBvLshr: r = y >= w ? mpz_class(0) : mpz_class(x >> y.get_ui()); break;
  case KBvAshr: { mpz_class sx = sgnBig(x, w); unsigned long s = y >= w ? w - 1 : y.get_ui(); mpz_fdiv_q_2exp(r.get_mpz_t(), sx.get_mpz_t(), s); break; }
  default: abort();
  }
  return bvConstBig(r, w);
}
static bool constLeaves(E e) { // ite tree with constant leaves of small size
  if (isC(e)) return true; return e->k == KBvIte && constLeaves(e->kids[1]) && constLeaves(e->kids[2]);
}
static int leafDepth(E e) { if (e->k != KBvIte) return 0; return 1 + std::max(leafDepth(e->kids[1]), leafDepth(e->kids[2])); }
E bvBin(Kind k, E a, E b) {
  unsigned w = a->w; assert(a->w == b->w);
  if (isC(a) && isC(b)) return foldBin(k, a, b);
  // push constants into ite trees with constant leaves
  if (isC(b) && a->k == KBvIte && constLeaves(a)) return bvIte(a->kids[0], bvBin(k, a->kids[1], b), bvBin(k, a->kids[2], b));
  if (isC(a) && b->k == KBvIte && constLeaves(b)) return bvIte(b->kids[0], bvBin(k, a, b->kids[1]), bvBin(k, a, b->kids[2]));
  switch (k) {
  case KBvAdd:
    if (isC(a)) std::swap(a, b);
    if (isCV(b, 0)) return a;
    if (isC(b) && a->k == KBvAdd && isC(a->kids[1])) return bvBin(KBvAdd, a->kids[0], foldBin(KBvAdd, a->kids[1], b));
    if (!isC(b)) { // hoist constants
      if (a->k == KBvAdd && isC(a->kids[1])) return bvBin(KBvAdd, bvBin(KBvAdd, a->kids[0], b), a->kids[1]);
      if (b->k == KBvAdd && isC(b->kids[1])) return bvBin(KBvAdd, bvBin(KBvAdd, a, b->kids[0]), b->kids[1]);
      // a + (-1*b) cancellations
      if (b->k == KBvMul && isOnes(b->kids[1])) { if (b->kids[0] == a) return bvConst(0, w); if (a->k == KBvAdd) { if (a->kids[0] == b->kids[0]) return a->kids[1]; if (a->kids[1] == b->kids[0]) return a->kids[0]; } }
      if (a->k == KBvMul && isOnes(a->kids[1])) { if (a->kids[0] == b) return bvConst(0, w); if (b->k == KBvAdd) { if (b->kids[0] == a->kids[0]) return b->kids[1]; if (b->kids[1] == a->kids[0]) return b->kids[0]; } }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case KBvMul:
    if (isC(a)) std::swap(a, b);
    if (isCV(b, 0)) return b; if (isCV(b, 1)) return a;
    if (isC(b) && a->k == KBvMul && isC(a->kids[1])) return bvBin(KBvMul, a->kids[0], foldBin(KBvMul, a->kids[1], b));
    if (isC(b) && a->k == KBvAdd && isC(a->kids[1])) return bvBin(KBvAdd, bvBin(KBvMul, a->kids[0], b), foldBin(KBvMul, a->kids[1], b));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case KBvUdiv: case KBvSdiv: if (isCV(b, 1)) return a; break;
  case KBvUrem: if (isCV(b, 1)) return bvConst(0, w); break;
  case KBvSrem: if (isCV(b, 1)) return bvConst(0, w); break;
  case KBvAnd:
    if (isC(a)) std::swap(a, b);
    if (isCV(b, 0)) return b; if (isOnes(b)) return a; if (a == b) return a;
    if (!b->big && isC(b) && w <= 64) { uint64_t m = b->a; if (m && (m & (m + 1)) == 0) { unsigned n = __builtin_popcountll(m); if (n < w) return bvZExt(bvExtract(a, 0, n), w); }
      if (a->k == KZExt && a->kids[0]->w < w) { unsigned n = a->kids[0]->w; return bvZExt(bvBin(KBvAnd, a->kids[0], bvConst(m, n)), w); } }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case KBvOr:
    if (isC(a)) std::swap(a, b);
    if (isCV(b, 0)) return a; if (isOnes(b)) return b; if (a == b) return a;
    { // (zext lo) | (x << k) with disjoint bits -> concat
      E lo = a, hi = b; for (int t = 0; t < 2; t++, std::swap(lo, hi)) if (lo->k == KZExt && hi->k == KConcat && isCV(hi->kids[1], 0) && hi->kids[1]->w >= lo->kids[0]->w)
        return bvConcat(hi->kids[0], bvZExt(lo->kids[0], hi->kids[1]->w)); }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case KBvXor:
    if (isC(a)) std::swap(a, b);
    if (isCV(b, 0)) return a; if (a == b) return bvConst(0, w);
    if (isC(b) && a->k == KBvXor && isC(a->kids[1])) return bvBin(KBvXor, a->kids[0], foldBin(KBvXor, a->kids[1], b));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case KBvShl: if (isCV(b, 0)) return a; { uint64_t s; if (bvIsConst(b, s)) { if (s >= w) return bvConst(0, w); return bvConcat(bvExtract(a, 0, w - s), bvConst(0, s)); } } break;
  case KBvLshr: if (isCV(b, 0)) return a; { uint64_t s; if (bvIsConst(b, s)) { if (s >= w) return bvConst(0, w); return bvZExt(bvExtract(a, s, w - s), w); } } break;
  case KBvAshr: if (isCV(b, 0)) return a; { uint64_t s; if (bvIsConst(b, s)) { if (s >= w) s = w - 1; return bvSExt(bvExtract(a, s, w - s), w); } } break;
  default: break;
  }
  return mk(k, SBV, w, {a, b});
}
E bvNeg(E a) { return bvBin(KBvMul, a, bvConstBig(mpz_class(-1), a->w)); }
E bvSub(E a, E b) { if (a == b) return bvConst(0, a->w); return bvAdd(a, bvNeg(b)); }
E bvNot(E a) { return bvBin(KBvXor, a, bvConstBig(mpz_class(-1), a->w)); }
E bvConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return bvConstBig((bvBig(hi) << lo->w) | bvBig(lo), hi->w + lo->w);
  if (hi->k == KExtract && lo->k == KExtract && hi->kids[0] == lo->kids[0] && hi->a == lo->a + lo->w) return bvExtract(hi->kids[0], lo->a, hi->w + lo->w);
  if (hi->k == KConcat && hi->kids[1]->k == KExtract && lo->k == KExtract && hi->kids[1]->kids[0] == lo->kids[0] && hi->kids[1]->a == lo->a + lo->w)
    return bvConcat(hi->kids[0], bvExtract(lo->kids[0], lo->a, hi->kids[1]->w + lo->w));
  if (isCV(hi, 0)) return bvZExt(lo, hi->w + lo->w);
  if (lo->k == KConcat) return bvConcat(bvConcat(hi, lo->kids[0]), lo->kids[1]);
  return mk(KConcat, SBV, hi->w + lo->w, {hi, lo});
}
E bvExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return bvConstBig(bvBig(a) >> lo, w);
  switch (a->k) {
  case KExtract: return bvExtract(a->kids[0], a->a + lo, w);
  case KConcat: { unsigned lw = a->kids[1]->w; if (lo + w <= lw) return bvExtract(a->kids[1], lo, w); if (lo >= lw) return bvExtract(a->kids[0], lo - lw, w);
      return bvConcat(bvExtract(a->kids[0], 0, lo + w - lw), bvExtract(a->kids[1], lo, lw - lo)); }
  case KZExt: { unsigned iw = a->kids[0]->w; if (lo + w <= iw) return bvExtract(a->kids[0], lo, w); if (lo >= iw) return bvConst(0, w); return bvZExt(bvExtract(a->kids[0], lo, iw - lo), w); }
  case KSExt: { unsigned iw = a->kids[0]->w; if (lo + w <= iw) return bvExtract(a->kids[0], lo, w); if (lo == 0) return bvSExt(a->kids[0], w); break; }
  case KBvIte: return bvIte(a->kids[0], bvExtract(a->kids[1], lo, w), bvExtract(a->kids[2], lo, w));
  case KBvAnd: case KBvOr: case KBvXor: return bvBin(a->k, bvExtract(a->kids[0], lo, w), bvExtract(a->kids[1], lo, w));
  case KBvAdd: case KBvMul: if (lo == 0) return bvBin(a->k, bvExtract(a->kids[0], 0, w), bvExtract(a->kids[1], 0, w)); break;
  case KIntToBv: if (lo == 0) return intToBv(a->kids[0], w); break;
  default: break;
  }
  return mk(KExtract, SBV, w, {a}, lo);
}
E bvZExt(E a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return bvConstBig(bvBig(a), w);
  if (a->k == KZExt) return bvZExt(a->kids[0], w);
  if (a->k == KBvIte && constLeaves(a)) return bvIte(a->kids[0], bvZExt(a->kids[1], w), bvZExt(a->kids[2], w));
  return mk(KZExt, SBV, w, {a});
}
E bvSExt(E a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return bvConstBig(sgnBig(bvBig(a), a->w), w);
  if (a->k == KZExt) return bvZExt(a->kids[0], w); if (a->k == KSExt) return bvSExt(a->kids[0], w);
  if (a->k == KBvIte && constLeaves(a)) return bvIte(a->kids[0], bvSExt(a->kids[1], w), bvSExt(a->kids[2], w));
  return mk(KSExt, SBV, w, {a});
}
E bvIte(E c, E a, E b) {
  if (isTrue(c)) return a; if (isFalse(c)) return b; if (a == b) return a; if (c->k == KNot) return bvIte(c->kids[0], b, a);
  if (a->k == KBvIte && a->kids[0] == c) a = a->kids[1]; if (b->k == KBvIte && b->kids[0] == c) b = b->kids[2]; if (a == b) return a;
  return mk(KBvIte, SBV, a->w, {c, a, b});
}
static std::unordered_map<uint64_t, E> cmpMemo;
E bvEq(E a, E b) {
  if (a == b) return mkTrue(); if (isC(a)) std::swap(a, b); if (isC(a)) return mkBool(bvBig(a) == bvBig(b));
  if (isC(b)) {
    if (a->k == KBvIte) { uint64_t key = ((uint64_t)a->id << 32) | b->id; auto it = cmpMemo.find(key); if (it != cmpMemo.end()) return it->second;
      E r; if (constLeaves(a) || isC(a->kids[1]) || isC(a->kids[2])) r = mkBIte(a->kids[0], bvEq(a->kids[1], b), bvEq(a->kids[2], b)); else r = mk(KBvEq, SBool, 1, {a, b}); cmpMemo[key] = r; return r; }
    if (a->k == KZExt) { unsigned iw = a->kids[0]->w; if ((bvBig(b) >> iw) != 0) return mkFalse(); return bvEq(a->kids[0], bvConstBig(bvBig(b), iw)); }
    if (a->k == KSExt) { unsigned iw = a->kids[0]->w; E t = bvConstBig(bvBig(b), iw); if (bvSExt(t, a->w) != b) return mkFalse(); return bvEq(a->kids[0], t); }
    if (a->k == KBvAdd && isC(a->kids[1])) return bvEq(a->kids[0], bvSub(b, a->kids[1]));
    if (a->k == KBvXor && isC(a->kids[1])) return bvEq(a->kids[0], bvBin(KBvXor, b, a->kids[1]));
    if (a->k == KBvMul && isOnes(a->kids[1])) return bvEq(a->kids[0], bvNeg(b));
    if (a->k == KConcat && isC(a->kids[1])) { unsigned lw = a->kids[1]->w; if (bvExtract(b, 0, lw) != a->kids[1]) return mkFalse(); return bvEq(a->kids[0], bvExtract(b, lw, b->w - lw)); }
    if (a->k == KIntToBv) { mpz_class lo, hi; if (intInterval(a->kids[0], lo, hi) && lo >= -(mpz_class(1) << (a->w - 1)) && hi < (mpz_class(1) << (a->w - 1))) return aEq(a->kids[0], aConst(mpq_class(sgnBig(bvBig(b), a->w)), SInt)); }
    return mk(KBvEq, SBool, 1, {a, b});
  }
  if (a->k == KZExt && b->k == KZExt && a->kids[0]->w == b->kids[0]->w) return bvEq(a->kids[0], b->kids[0]);
  if (a->k == KSExt && b->k == KSExt && a->kids[0]->w == b->kids[0]->w) return bvEq(a->kids[0], b->kids[0]);
  if (a->k == KBvAdd && b->k == KBvAdd && isC(a->kids[1]) && a->kids[1] == b->kids[1]) return bvEq(a->kids[0], b->kids[0]);
  if (a->id > b->id) std::swap(a, b);
  return mk(KBvEq, SBool, 1, {a, b});
}
E bvCmp(Kind k, E a, E b) {
  if (k == KBvEq) return bvEq(a, b);
  if (a == b) return mkBool(k == KBvUle || k == KBvSle);
  unsigned w = a->w;
  if (isC(a) && isC(b)) { mpz_class x = bvBig(a), y = bvBig(b); if (k == KBvSlt || k == KBvSle) { x = sgnBig(x, w); y = sgnBig(y, w); }
    return mkBool((k == KBvUlt || k == KBvSlt) ? x < y : x <= y); }
  if (isC(b) && a->k == KBvIte && constLeaves(a)) return mkBIte(a->kids[0], bvCmp(k, a->kids[1], b), bvCmp(k, a->kids[2], b));
  if (isC(a) && b->k == KBvIte && constLeaves(b)) return mkBIte(b->kids[0], bvCmp(k, a, b->kids[1]), bvCmp(k, a, b->kids[2]));
  if (k == KBvUlt) { if (isCV(b, 0)) return mkFalse(); if (isCV(b, 1)) return bvEq(a, bvConst(0, w)); if (isOnes(a)) return mkFalse(); if (isCV(a, 0)) return mkNot(bvEq(b, a)); return mkNot(bvCmp(KBvUle, b, a)); }
  if (k == KBvSlt) return mkNot(bvCmp(KBvSle, b, a));
  if (k == KBvUle) { if (isCV(a, 0) || isOnes(b)) return mkTrue(); if (isCV(b, 0)) return bvEq(a, b); if (isOnes(a)) return bvEq(a, b); }
  bool za = a->k == KZExt, zb = b->k == KZExt;
  if (za && zb) { unsigned iw = std::max(a->kids[0]->w, b->kids[0]->w); return bvCmp(KBvUle, bvZExt(a->kids[0], iw), bvZExt(b->kids[0], iw)); }
  if (za && isC(b)) { unsigned iw = a->kids[0]->w; mpz_class y = bvBig(b); if (k == KBvSle) { y = sgnBig(y, w); if (y < 0) return mkFalse(); } if (y >= (mpz_class(1) << iw) - 1) return mkTrue(); return bvCmp(KBvUle, a->kids[0], bvConstBig(y, iw)); }
  if (zb && isC(a)) { unsigned iw = b->kids[0]->w; mpz_class x = bvBig(a); if (k == KBvSle) { x = sgnBig(x, w); if (x <= 0) return mkTrue(); } if (x >= (mpz_class(1) << iw)) return mkFalse(); return bvCmp(KBvUle, bvConstBig(x, iw), b->kids[0]); }
  if (k == KBvSle && a->k == KSExt && b->k == KSExt && a->kids[0]->w == b->kids[0]->w) return bvCmp(k, a->kids[0], b->kids[0]);
  return mk(k, SBool, 1, {a, b});
}
E fpCmp(unsigned pred, E a, E b) { if (pred == 0) return mkFalse(); if (pred == 15) return mkTrue(); return mk(KFpCmp, SBool, 1, {a, b}, pred); }
E fpOp(unsigned op, const std::vector<E> &kids, unsigned w) {
  if (op == FpNeg) return bvBin(KBvXor, kids[0], bvConst(1ull << (w - 1), w));
  if (op == FpAbs) return bvBin(KBvAnd, kids[0], bvConst((1ull << (w - 1)) - 1, w));
  return mk(KFpOp, SBV, w, kids, op);
}
// ---------------- arithmetic
static E one() { static E e = [] { Expr t; t.k = KAMono; t.s = SInt; t.bounded = true; t.lo = 1; t.hi = 1; return intern(t); }(); return e; }
static bool isIntQ(const mpq_class &q) { return q.get_den() == 1; }
E aConst(const mpq_class &q, Sort) { Expr t; t.k = KAConst; t.s = isIntQ(q) ? SInt : SReal; t.coef = {q}; if (t.s == SInt) { t.bounded = true; t.lo = t.hi = q.get_num(); } return intern(t); }
bool aIsConst(E e, mpq_class &q) { if (e->k != KAConst) return false; q = e->coef[0]; return true; }
E aVar(const std::string &n, Sort s) { return mkVarK(KAVar, s, 0, n); }
E aVarBounded(const std::string &n, const mpz_class &lo, const mpz_class &hi) {
  Expr t; t.k = KAVar; t.s = SInt; t.name = new std::string(n); E e = intern(t); Expr *x = (Expr*)e; x->bounded = true; x->lo = lo; x->hi = hi; return e;
}
bool intInterval(E e, mpz_class &lo, mpz_class &hi) { if (e->s != SInt || !e->bounded) return false; lo = e->lo; hi = e->hi; return true; }
typedef std::vector<std::pair<E, mpq_class>> Terms;
static void terms(E e, Terms &t) {
  t.clear();
  if (e->k == KAConst) { if (e->coef[0] != 0) t.emplace_back(one(), e->coef[0]); }
  else if (e->k == KASum) for (size_t i = 0; i < e->kids.size(); i++) t.emplace_back(e->kids[i], e->coef[i]);
  else t.emplace_back(e, mpq_class(1));
}
size_t polySize(E e) { return e->k == KASum ? e->kids.size() : 1; }
static void ipow(const mpz_class &lo, const mpz_class &hi, unsigned n, mpz_class &rl, mpz_class &rh) {
  mpz_class a, b; mpz_pow_ui(a.get_mpz_t(), lo.get_mpz_t(), n); mpz_pow_ui(b.get_mpz_t(), hi.get_mpz_t(), n);
  if (n % 2) { rl = a; rh = b; } else { if (a > b) std::swap(a, b); rh = b; rl = (lo <= 0 && hi >= 0) ? mpz_class(0) : a; }
}
static void imul(const mpz_class &al, const mpz_class &ah, const mpz_class &bl, const mpz_class &bh, mpz_class &rl, mpz_class &rh) {
  mpz_class p[4] = {al * bl, al * bh, ah * bl, ah * bh}; rl = rh = p[0]; for (int i = 1; i < 4; i++) { if (p[i] < rl) rl = p[i]; if (p[i] > rh) rh = p[i]; }
}
static E buildSum(const Terms &t) { // sorted by id, no zeros
  if (t.empty()) return aConst(0, SInt);
  if (t.size() == 1) { if (t[0].first == one()) return aConst(t[0].second, SInt); if (t[0].second == 1) return t[0].first; }
  Expr x; x.k = KASum; x.s = SInt; x.bounded = true; x.lo = 0; x.hi = 0;
  for (auto &p : t) {
    x.kids.push_back(p.first); x.coef.push_back(p.second);
    if (p.first->s != SInt || !isIntQ(p.second)) { x.s = SReal; x.bounded = false; }
    if (x.bounded) { if (!p.first->bounded) x.bounded = false; else { mpz_class c = p.second.get_num(); if (c > 0) { x.lo += c * p.first->lo; x.hi += c * p.first->hi; } else { x.lo += c * p.first->hi; x.hi += c * p.first->lo; } } }
  }
  return intern(x);
}
// integers with few possible values: value -> condition
struct FD { bool ok = false; std::map<mpz_class, E> m; };
static const FD &fd(E e) {
  static std::unordered_map<uint32_t, FD> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  FD r;
  if (e->k == KAConst) { if (isIntQ(e->coef[0])) { r.ok = true; r.m[e->coef[0].get_num()] = mkTrue(); } }
  else if (e->k == KAIte && e->s == SInt) { const FD a = fd(e->kids[1]), b = fd(e->kids[2]); if (a.ok && b.ok) { E c = e->kids[0]; r.ok = true; for (auto &p : a.m) { auto q = b.m.find(p.first); r.m[p.first] = mkBIte(c, p.second, q == b.m.end() ? mkFalse() : q->second); } for (auto &q : b.m) if (!a.m.count(q.first)) r.m[q.first] = mkAnd(mkNot(c), q.second); if (r.m.size() > 8) { r.ok = false; r.m.clear(); } } }
  return memo[e->id] = r;
}
static E fdBuild(const FD &f) {
  std::vector<std::pair<mpz_class, E>> v; for (auto &p : f.m) if (!isFalse(p.second)) v.push_back(p);
  if (v.empty()) return aConst(0, SInt);
  E r = aConst(mpq_class(v.back().first), SInt); for (int i = (int)v.size() - 2; i >= 0; i--) { if (isTrue(v[i].second)) return aConst(mpq_class(v[i].first), SInt);
    Expr x; x.k = KAIte; x.s = SInt; E c = v[i].second, t = aConst(mpq_class(v[i].first), SInt), e = r; if (c->k == KNot) { c = c->kids[0]; std::swap(t, e); } x.kids = {c, t, e}; x.bounded = true; x.lo = v[i].first; x.hi = v.back().first; r = intern(x); }
  return r;
}
static E fdMap(const FD &a, const std::function<mpz_class(const mpz_class &)> &f) { FD r; r.ok = true; for (auto &p : a.m) { mpz_class v = f(p.first); auto it = r.m.find(v); if (it == r.m.end()) r.m[v] = p.second; else it->second = mkOr(it->second, p.second); } return fdBuild(r); }
static E fdSum(E s) { // sum of few-valued terms
  if (s->k != KASum || s->s != SInt || s->kids.size() > 6) return s; FD acc; acc.ok = true; acc.m[0] = mkTrue();
  for (size_t i = 0; i < s->kids.size(); i++) { mpz_class c = s->coef[i].get_num(); if (s->kids[i] == one()) { FD n; n.ok = true; for (auto &p : acc.m) n.m[p.first + c] = p.second; acc = n; continue; }
    const FD &f = fd(s->kids[i]); if (!f.ok) return s; FD n; n.ok = true;
    for (auto &p : acc.m) for (auto &q : f.m) { mpz_class v = p.first + c * q.first; E cc = mkAnd(p.second, q.second); if (isFalse(cc)) continue; auto it = n.m.find(v); if (it == n.m.end()) n.m[v] = cc; else it->second = mkOr(it->second, cc); }
    if (n.m.size() > 8) return s; acc = n; }
  return fdBuild(acc);
}
static E aAdd0(E a, E b);
E aAdd(E a, E b) { E r = aAdd0(a, b); return r->k == KASum ? fdSum(r) : r; }
static E aAdd0(E a, E b) {
  Terms ta, tb, r; terms(a, ta); terms(b, tb); size_t i = 0, j = 0;
  while (i < ta.size() || j < tb.size()) {
    if (j >= tb.size() || (i < ta.size() && ta[i].first->id < tb[j].first->id)) r.push_back(ta[i++]);
    else if (i >= ta.size() || tb[j].first->id < ta[i].first->id) r.push_back(tb[j++]);
    else { mpq_class c = ta[i].second + tb[j].second; if (c != 0) r.emplace_back(ta[i].first, c); i++; j++; }
  }
  return buildSum(r);
}
static E aScale0(E a, const mpq_class &q);
E aScale(E a, const mpq_class &q) { if (a->k == KAIte && q != 0 && q != 1 && isIntQ(q)) { const FD &f = fd(a); if (f.ok) { mpz_class c = q.get_num(); return fdMap(f, [&](const mpz_class &v) { return mpz_class(v * c); }); } } return aScale0(a, q); }
static E aScale0(E a, const mpq_class &q) { if (q == 0) return aConst(0, SInt); if (q == 1) return a; Terms t; terms(a, t); for (auto &p : t) p.second *= q; return buildSum(t); }
E aNeg(E a) { return aScale(a, mpq_class(-1)); }
E aSub(E a, E b) { if (a == b) return aConst(0, SInt); return aAdd(a, aNeg(b)); }
static E monoMul(E a, E b) {
  if (a == one()) return b; if (b == one()) return a;
  std::vector<E> ka, kb; std::vector<uint32_t> ea, eb;
  if (a->k == KAMono) { ka = a->kids; ea = a->exps; } else { ka = {a}; ea = {1}; }
  if (b->k == KAMono) { kb = b->kids; eb = b->exps; } else { kb = {b}; eb = {1}; }
  Expr x; x.k = KAMono; x.s = SInt; size_t i = 0, j = 0;
  while (i < ka.size() || j < kb.size()) {
    if (j >= kb.size() || (i < ka.size() && ka[i]->id < kb[j]->id)) { x.kids.push_back(ka[i]); x.exps.push_back(ea[i++]); }
    else if (i >= ka.size() || kb[j]->id < ka[i]->id) { x.kids.push_back(kb[j]); x.exps.push_back(eb[j++]); }
    else { x.kids.push_back(ka[i]); x.exps.push_back(ea[i++] + eb[j++]); }
  }
  x.bounded = true; x.lo = x.hi = 1;
  for (size_t q = 0; q < x.kids.size(); q++) { E k = x.kids[q]; if (k->s != SInt) { x.s = SReal; x.bounded = false; }
    if (x.bounded && !k->bounded) x.bounded = false;
    if (x.bounded) { mpz_class pl, ph, rl, rh; ipow(k->lo, k->hi, x.exps[q], pl, ph); imul(x.lo, x.hi, pl, ph, rl, rh); x.lo = rl; x.hi = rh; } }
  if (x.kids.size() == 1 && x.exps[0] == 1) return x.kids[0];
  return intern(x);
}
E aMul(E a, E b) {
  mpq_class q; if (aIsConst(a, q)) return aScale(b, q); if (aIsConst(b, q)) return aScale(a, q);
  Terms ta, tb; terms(a, ta); terms(b, tb);
  if (ta.size() * tb.size() > 6000) { // opaque factors
    E x = a, y = b; return monoMul(x, y);
  }
  std::map<uint32_t, std::pair<E, mpq_class>> m;
  for (auto &p : ta) for (auto &r : tb) { E mm = monoMul(p.first, r.first); auto &s = m[mm->id]; s.first = mm; s.second += p.second * r.second; }
  Terms t; for (auto &p : m) if (p.second.second != 0) t.push_back(p.second);
  return buildSum(t);
}
E aDiv(E a, E b) {
  mpq_class q, p; if (aIsConst(b, q) && q != 0) return aScale(a, 1 / q); if (aIsConst(a, p) && p == 0) return a; if (a == b) return aConst(1, SInt);
  // canonical: make denominator monic, then a * (1/b) with inverse as an atom
  Terms tb; terms(b, tb); mpq_class lead = tb.back().second; if (lead != 1) return aScale(aDiv(a, aScale(b, 1 / lead)), 1 / lead);
  E inv = mk(KADiv, SReal, 0, {aConst(1, SInt), b});
  return aMul(a, inv);
}
static void factors(E a, std::vector<E> &k, std::vector<uint32_t> &e) { if (a == one()) { k.clear(); e.clear(); } else if (a->k == KAMono) { k = a->kids; e = a->exps; } else { k = {a}; e = {1}; } }
static bool rootName(E v) { if (v->k != KAVar || !v->name) return false; const std::string &n = *v->name; return n.compare(0, 5, "sqrt!") == 0 || n.compare(0, 5, "cbrt!") == 0 || n.compare(0, 6, "acos3!") == 0; }
bool rootRule(E p, RootRule &r) {
  Terms t; terms(p, t); r.v = nullptr;
  for (auto &x : t) { std::vector<E> k; std::vector<uint32_t> e; factors(x.first, k, e); if (k.size() == 1 && rootName(k[0])) { uint32_t want = (*k[0]->name)[0] == 's' ? 2 : 3; if (e[0] == want && (!r.v || k[0]->id > r.v->id)) { r.v = k[0]; r.k = want; Terms o; for (auto &y : t) if (y.first != x.first) o.push_back({y.first, -y.second / x.second}); r.p = buildSum(o); } } }
  if (!r.v) return false;
  Terms o; terms(r.p, o); for (auto &y : o) { std::vector<E> k; std::vector<uint32_t> e; factors(y.first, k, e); for (size_t i = 0; i < k.size(); i++) { if (k[i] == r.v && e[i] >= r.k) return false; if (rootName(k[i]) && k[i]->id > r.v->id) return false; } }
  return true;
}
static E powE(E x, uint32_t n) { E r = aConst(1, SInt); for (uint32_t i = 0; i < n; i++) r = aMul(r, x); return r; }
E algebraReduce(E p, const std::vector<RootRule> &rules) {
  for (int iter = 0; iter < 200; iter++) {
    Terms t; terms(p, t); if (t.size() > 5000) return nullptr;
    // outermost inverse or root variable above its degree
    E pick = nullptr; const RootRule *rule = nullptr;
    for (auto &x : t) { std::vector<E> k; std::vector<uint32_t> e; factors(x.first, k, e); for (size_t i = 0; i < k.size(); i++) { if (k[i]->k == KADiv) { if (!pick || k[i]->id > pick->id) pick = k[i]; } } }
    if (!pick) for (auto &x : t) { std::vector<E> k; std::vector<uint32_t> e; factors(x.first, k, e); for (size_t i = 0; i < k.size(); i++) for (auto &r : rules) if (r.v == k[i] && e[i] >= r.k && (!pick || k[i]->id > pick->id)) { pick = k[i]; rule = &r; } }
    if (!pick) return p;
    std::map<uint32_t, Terms> byexp; uint32_t d = 0;
    for (auto &x : t) { std::vector<E> k; std::vector<uint32_t> e; factors(x.first, k, e); uint32_t q = 0; E rest = aConst(1, SInt); for (size_t i = 0; i < k.size(); i++) { if (k[i] == pick) q = e[i]; else rest = aMul(rest, powE(k[i], e[i])); } d = std::max(d, q); byexp[q].push_back({rest, x.second}); }
    E s = aConst(0, SInt);
    for (auto &g : byexp) { std::map<uint32_t, std::pair<E, mpq_class>> m; for (auto &x : g.second) { Terms tt; terms(x.first, tt); for (auto &y : tt) { auto &z = m[y.first->id]; z.first = y.first; z.second += y.second * x.second; } } Terms o; for (auto &x : m) if (x.second.second != 0) o.push_back(x.second); E c = buildSum(o);
      if (rule) c = aMul(aMul(c, powE(pick, g.first % rule->k)), powE(rule->p, g.first / rule->k)); else c = aMul(c, powE(pick->kids[1], d - g.first));
      s = aAdd(s, c); }
    p = s;
  }
  return nullptr;
}
// x = acos(u)/3 + 2 pi k / 3
bool thirdAngle(E x, E &u, int &k) {
  Terms t; terms(x, t); u = nullptr; double c = 0;
  for (auto &y : t) { if (y.first == one()) c = y.second.get_d(); else if (y.first->k == KUF && y.first->name && *y.first->name == "acos" && y.second == mpq_class(1, 3)) u = y.first->kids[0]; else return false; }
  if (!u) return false; for (k = 0; k < 3; k++) if (std::fabs(c - k * 2 * M_PI / 3) < 1e-9) return true; return false;
}
// x = log(u)/2
bool halfLog(E x, E &u) { Terms t; terms(x, t); if (t.size() != 1 || t[0].second != mpq_class(1, 2)) return false; E y = t[0].first; if (y->k != KUF || !y->name || *y->name != "log") return false; u = y->kids[0]; return true; }
// split x = q*y + r collecting into q the terms of x divisible by the monomial (or constant) y
bool polyDivSplit(E x, E y, E &q, E &r) {
  mpq_class c; Terms t, tq, tr; terms(x, t);
  if (y->k == KASum) return false;
  bool cst = aIsConst(y, c);
  E qs = aConst(0, SInt);
  for (auto &p : t) {
    if (!isIntQ(p.second)) return false;
    if (cst) { if (p.first == one()) { tr.push_back(p); continue; } mpz_class m; mpz_fdiv_r(m.get_mpz_t(), p.second.get_num_mpz_t(), c.get_num_mpz_t()); if (m == 0) qs = aAdd(qs, aScale(p.first, p.second / c)); else tr.push_back(p); continue; }
    // monomial y: every factor must occur in p.first
    std::vector<E> ky, kp; std::vector<uint32_t> ey, ep; E a = p.first;
    if (y->k == KAMono) { ky = y->kids; ey = y->exps; } else { ky = {y}; ey = {1}; }
    if (a->k == KAMono) { kp = a->kids; ep = a->exps; } else { kp = {a}; ep = {1}; }
    bool div = a != one(); 
    for (size_t i = 0; div && i < ky.size(); i++) { bool f = false; for (size_t j = 0; j < kp.size(); j++) if (kp[j] == ky[i] && ep[j] >= ey[i]) { ep[j] -= ey[i]; f = true; break; } if (!f) div = false; }
    if (!div) { tr.push_back(p); continue; }
    E m = aConst(1, SInt); for (size_t j = 0; j < kp.size(); j++) for (uint32_t k = 0; k < ep[j]; k++) m = aMul(m, kp[j]);
    qs = aAdd(qs, aScale(m, p.second));
  }
  mpq_class z; if (aIsConst(qs, z) && z == 0) { q = qs; r = x; return true; }
  q = qs; r = buildSum(tr); return true;
}
static void floorDiv(mpz_class &r, const mpz_class &a, const mpz_class &b) { mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); }
E iDiv(E a, E b) {
  mpq_class p, q; E Q, R;
  if (aIsConst(b, q) && q > 1 && a->k != KAConst && polyDivSplit(a, b, Q, R) && !(aIsConst(Q, p) && p == 0)) return aAdd(Q, iDiv(R, b));
  if (aIsConst(b, q) && q > 0 && a->k == KAIte) { const FD &f = fd(a); if (f.ok) { mpz_class d = q.get_num(); return fdMap(f, [&](const mpz_class &v) { mpz_class r; floorDiv(r, v, d); return r; }); } }
  if (aIsConst(b, q) && q > 1 && a->k == KAIte) { mpq_class M; if (aIsConst(aSub(a->kids[1], a->kids[2]), M) && M != 0 && mpq_class(M / q).get_den() == 1) { E x = M > 0 ? a->kids[2] : a->kids[1]; mpq_class k = abs(M) / q; E base = iDiv(x, b); return M > 0 ? aIte(a->kids[0], aAdd(base, aConst(k, SInt)), base) : aIte(a->kids[0], base, aAdd(base, aConst(k, SInt))); } }
  if (aIsConst(b, q)) { if (q == 1) return a; if (aIsConst(a, p) && q > 0) { mpz_class r; floorDiv(r, p.get_num(), q.get_num()); return aConst(mpq_class(r), SInt); }
    if (a->bounded && q > 0) { mpz_class l, h; floorDiv(l, a->lo, q.get_num()); floorDiv(h, a->hi, q.get_num()); if (l == h) return aConst(mpq_class(l), SInt); } }
  if (aIsConst(b, q) && q > 1 && a->bounded && a->lo >= -q.get_num() && a->hi < q.get_num()) return aIte(aLt(a, aConst(0, SInt)), aConst(-1, SInt), aConst(0, SInt));
  Expr x; x.k = KIDiv; x.s = SInt; x.kids = {a, b};
  if (a->bounded) { mpz_class A = abs(a->lo), B = abs(a->hi); mpz_class m = A > B ? A : B; x.bounded = true; x.hi = a->hi < 0 ? mpz_class(0) : a->hi; x.lo = a->lo >= 0 ? mpz_class(0) : mpz_class(-m);
    if (b->bounded && b->lo > 0) { if (a->lo >= 0) { floorDiv(x.hi, a->hi, b->lo); floorDiv(x.lo, a->lo, b->hi); } } }
  return intern(x);
}
E iMod(E a, E b) {
  mpq_class p, q; E Q, R;
  if (aIsConst(b, q) && q > 1 && a->k != KAConst && polyDivSplit(a, b, Q, R) && !(aIsConst(Q, p) && p == 0)) return iMod(R, b);
  if (aIsConst(b, q) && q > 0 && a->k == KAIte) { const FD &f = fd(a); if (f.ok) { mpz_class d = q.get_num(); return fdMap(f, [&](const mpz_class &v) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), v.get_mpz_t(), d.get_mpz_t()); return r; }); } }
  if (aIsConst(b, q) && q > 1 && a->k == KAIte) { mpq_class M; if (aIsConst(aSub(a->kids[1], a->kids[2]), M) && M != 0 && mpq_class(M / q).get_den() == 1) return iMod(M > 0 ? a->kids[2] : a->kids[1], b); }
  if (aIsConst(b, q)) { if (q == 1) return aConst(0, SInt); if (aIsConst(a, p) && q > 0) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), p.get_num_mpz_t(), q.get_num_mpz_t()); return aConst(mpq_class(r), SInt); }
    if (a->bounded && q > 0 && a->lo >= 0 && a->hi < q.get_num()) return a; }
  if (a->bounded && b->bounded && a->lo >= 0 && a->hi < b->lo) return a;
  Expr x; x.k = KIMod; x.s = SInt; x.kids = {a, b};
  if (b->bounded && b->hi > 0) { x.bounded = true; x.lo = 0; x.hi = b->hi - 1; if (a->bounded && a->lo >= 0 && a->hi < x.hi) x.hi = a->hi; }
  return intern(x);
}
// x - y*(x div y) is x mod y
E modNormalize(E r) {
  if (r->k != KASum || r->s != SInt) return r; Terms t; terms(r, t);
  for (auto &p : t) {
    std::vector<E> f; if (p.first->k == KAMono) { for (E k : p.first->kids) if (k->k == KIDiv) f.push_back(k); } else if (p.first->k == KIDiv) f.push_back(p.first);
    for (E D : f) { E x = D->kids[0], y = D->kids[1], yD = aMul(y, D); mpq_class c, cy; 
      if (aIsConst(y, cy)) { c = p.second / cy; if (c.get_den() != 1) continue; } else { if (yD != p.first) continue; c = p.second; }
      E n = aAdd(aSub(r, aScale(yD, c)), aScale(aSub(x, iMod(x, y)), c)); if (polySize(n) < polySize(r) || (polySize(n) == polySize(r) && n->k != KASum)) return modNormalize(n); } }
  return r;
}
static bool aConstLeaves(E e) { if (e->k == KAConst) return true; return e->k == KAIte && aConstLeaves(e->kids[1]) && aConstLeaves(e->kids[2]); }
E aIte(E c, E a, E b) {
  if (isTrue(c)) return a; if (isFalse(c)) return b; if (a == b) return a; if (c->k == KNot) return aIte(c->kids[0], b, a);
  if (a->k == KAIte && a->kids[0] == c) a = a->kids[1]; if (b->k == KAIte && b->kids[0] == c) b = b->kids[2]; if (a == b) return a;
  Expr x; x.k = KAIte; x.s = (a->s == SInt && b->s == SInt) ? SInt : SReal; x.kids = {c, a, b};
  if (x.s == SInt && a->bounded && b->bounded) { x.bounded = true; x.lo = a->lo < b->lo ? a->lo : b->lo; x.hi = a->hi > b->hi ? a->hi : b->hi; }
  E r = intern(x); if (x.s == SInt && (a->k == KAConst || a->k == KAIte) && (b->k == KAConst || b->k == KAIte)) { const FD &f = fd(r); if (f.ok) return fdBuild(f); }
  return r;
}
E aFloor(E a, unsigned bits) {
  if (a->s == SInt) return a; mpq_class q; if (aIsConst(a, q)) { mpz_class r; floorDiv(r, q.get_num(), q.get_den()); return aConst(mpq_class(r), SInt); }
  Expr x; x.k = KFloor; x.s = SInt; x.kids = {a}; x.a = bits; if (bits) { x.bounded = true; x.lo = -(mpz_class(1) << (bits - 1)); x.hi = (mpz_class(1) << (bits - 1)) - 1; } return intern(x);
}
E bvToInt(E a, bool sgnd) {
  if (isC(a)) return aConst(mpq_class(sgnd ? sgnBig(bvBig(a), a->w) : bvBig(a)), SInt);
  if (a->k == KZExt) return bvToInt(a->kids[0], false);
  if (a->k == KSExt && sgnd) return bvToInt(a->kids[0], true);
  if (a->k == KIntToBv) { mpz_class lo, hi; E i = a->kids[0]; if (intInterval(i, lo, hi)) { if (sgnd ? (lo >= -(mpz_class(1) << (a->w - 1)) && hi < (mpz_class(1) << (a->w - 1))) : (lo >= 0 && hi < (mpz_class(1) << a->w))) return i; } }
  if (a->k == KBvIte) return aIte(a->kids[0], bvToInt(a->kids[1], sgnd), bvToInt(a->kids[2], sgnd));
  Expr x; x.k = KBvToInt; x.s = SInt; x.kids = {a}; x.a = sgnd; x.bounded = true; if (sgnd) { x.lo = -(mpz_class(1) << (a->w - 1)); x.hi = (mpz_class(1) << (a->w - 1)) - 1; } else { x.lo = 0; x.hi = (mpz_class(1) << a->w) - 1; }
  return intern(x);
}
E intToBv(E a, unsigned w) {
  mpq_class q; if (aIsConst(a, q)) return bvConstBig(q.get_num(), w);
  if (a->k == KBvToInt && a->kids[0]->w == w) return a->kids[0];
  if (a->k == KBvToInt) { E k = a->kids[0]; return w < k->w ? bvExtract(k, 0, w) : (a->a ? bvSExt(k, w) : bvZExt(k, w)); }
  if (a->k == KAIte) return bvIte(a->kids[0], intToBv(a->kids[1], w), intToBv(a->kids[2], w));
  return mk(KIntToBv, SBV, w, {a});
}
E aUF(const std::string &n, const std::vector<E> &args) { Expr t; t.k = KUF; t.s = SReal; t.name = new std::string(n); t.kids = args; return intern(t); }
// comparison: op on p (vs 0)
static std::unordered_map<uint64_t, E> pcMemo;
static E pcmp(Kind k, E p) {
  mpq_class q;
  if (aIsConst(p, q)) return mkBool(k == KPLt ? q < 0 : k == KPLe ? q <= 0 : q == 0);
  uint64_t key = ((uint64_t)p->id << 8) | k; auto it = pcMemo.find(key); if (it != pcMemo.end()) return it->second;
  auto done = [&](E r) { pcMemo[key] = r; return r; };
  Terms t; terms(p, t);
  mpq_class c0 = 0; size_t st = 0; if (t[0].first == one()) { c0 = t[0].second; st = 1; }
  if (t.size() - st == 1 && t[st].first->k == KAIte) { // push into ite
    E ite = t[st].first; auto leaf = [&](E x) { return pcmp(k, aAdd(aScale(x, t[st].second), aConst(c0, SReal))); };
    if (aConstLeaves(ite) || ite->kids[1]->k == KAConst || ite->kids[2]->k == KAConst) return done(mkBIte(ite->kids[0], leaf(ite->kids[1]), leaf(ite->kids[2])));
  }
  if (p->bounded && p->s == SInt) {
    if (k == KPLt) { if (p->hi < 0) return done(mkTrue()); if (p->lo >= 0) return done(mkFalse()); }
    if (k == KPLe) { if (p->hi <= 0) return done(mkTrue()); if (p->lo > 0) return done(mkFalse()); }
    if (k == KPEq) { if (p->lo > 0 || p->hi < 0) return done(mkFalse()); if (p->lo == 0 && p->hi == 0) return done(mkTrue()); }
  }
  bool allInt = true; for (size_t i = st; i < t.size(); i++) if (t[i].first->s != SInt) allInt = false;
  // sign pattern: all even monomials with positive/negative coefficients
  { int pos = 1, neg = 1; for (size_t i = st; i < t.size(); i++) { bool even = t[i].first->k == KAMono; if (even) for (auto x : t[i].first->exps) if (x % 2) even = false; if (!even) { pos = neg = 0; break; } if (t[i].second > 0) neg = 0; else pos = 0; }
    if (pos && c0 >= 0) { if (k == KPLt) return done(mkFalse()); if (c0 > 0) return done(mkFalse()); }
    if (neg && c0 <= 0) { if (k == KPLe) return done(mkTrue()); if (c0 < 0) return done(k == KPLt ? mkTrue() : mkFalse()); } }
  if (allInt) {
    mpz_class L = 1; for (size_t i = st; i < t.size(); i++) mpz_lcm(L.get_mpz_t(), L.get_mpz_t(), t[i].second.get_den_mpz_t());
    mpz_class g = 0; for (size_t i = st; i < t.size(); i++) { mpz_class v = mpq_class(t[i].second * L).get_num(); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), v.get_mpz_t()); }
    mpq_class f = mpq_class(L) / g; for (auto &x : t) x.second *= f; c0 *= f;
    bool neg = t.back().second < 0 && t.back().first != one();
    mpz_class fl;
    if (k == KPEq) { if (!isIntQ(c0)) return done(mkFalse()); if (neg) for (auto &x : t) x.second = -x.second; E pp = buildSum(t); return done(mk(KPEq, SBool, 1, {pp})); }
    // p' + c0 <= 0  or < 0 -> p' <= m
    mpq_class mc = -c0; mpz_class m; if (k == KPLe) floorDiv(m, mc.get_num(), mc.get_den()); else { mpz_cdiv_q(m.get_mpz_t(), mc.get_num_mpz_t(), mc.get_den_mpz_t()); m -= 1; }
    Terms body(t.begin() + st, t.end()); E pb = buildSum(body);
    if (!neg) return done(mk(KPLe, SBool, 1, {aAdd(pb, aConst(mpq_class(-m), SInt))}));
    // -q <= m  <=> q >= -m <=> not (q <= -m-1)
    E qb = aNeg(pb); E r = mk(KPLe, SBool, 1, {aAdd(qb, aConst(mpq_class(m + 1), SInt))}); return done(mkNot(r));
  }
  mpq_class lead = t.back().second; bool neg = lead < 0; mpq_class f = 1 / abs(lead); if (neg) f = -f; // monic
  E m = aScale(p, f);
  if (k == KPEq) return done(mk(KPEq, SBool, 1, {m}));
  if (!neg) return done(mk(k, SBool, 1, {m}));
  // p = -c*m : p < 0 <=> m > 0 <=> !(m <= 0);  p <= 0 <=> m >= 0 <=> !(m < 0)
  return done(mkNot(mk(k == KPLt ? KPLe : KPLt, SBool, 1, {m})));
}
E aLt(E a, E b) { return pcmp(KPLt, aSub(a, b)); }
E aLe(E a, E b) { return pcmp(KPLe, aSub(a, b)); }
E aEq(E a, E b) { return pcmp(KPEq, aSub(a, b)); }
// an Int atom  body + k <= 0 / = 0  as body <= thr / = thr
bool splitAtom(E a, E &body, mpz_class &thr) {
  if ((a->k != KPLe && a->k != KPEq) || a->kids[0]->s != SInt) return false;
  Terms t; terms(a->kids[0], t); mpq_class c0 = 0; if (!t.empty() && t[0].first == one()) { c0 = t[0].second; t.erase(t.begin()); } if (t.empty() || !isIntQ(c0)) return false;
  if (t.back().second < 0 && a->k == KPEq) return false;
  body = buildSum(t); thr = -c0.get_num(); return true;
}
E mkAtom(Kind k, E p) { return mk(k, SBool, 1, {p}); }
// ---------------- misc
std::string toStr(E e, int d) {
  std::ostringstream o; static const char *names[] = {"true","false","b","not","and","or","bite","iff","=","ult","ule","slt","sle","<0","<=0","=0","fpcmp","c","v","+","*","udiv","sdiv","urem","srem","&","|","^","shl","lshr","ashr","concat","ext","zext","sext","ite","int2bv","fpop","c","v","mono","sum","ite","/","div","mod","floor","bv2int","toreal","uf"};
  if (e->k == KAConst) return e->coef[0].get_str(); if (e->k == KBvConst) return bvBig(e).get_str() + ":" + std::to_string(e->w);
  if (e->name && e->kids.empty()) return *e->name;
  if (d == 0) return "..";
  o << "(" << names[e->k]; if (e->name) o << ":" << *e->name; if (e->k == KExtract) o << "[" << e->a << "+" << e->w << "]"; if (e->k == KFpCmp || e->k == KFpOp) o << e->a;
  for (size_t i = 0; i < e->kids.size(); i++) { o << " "; if (e->k == KASum) o << e->coef[i].get_str() << "*"; o << toStr(e->kids[i], d - 1); if (e->k == KAMono && e->exps[i] > 1) o << "^" << e->exps[i]; }
  o << ")"; return o.str();
}
void collectVars(E e, std::vector<E> &out) {
  std::set<E> seen; std::vector<E> st{e}; 
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if ((x->k == KBVar || x->k == KBvVar || x->k == KAVar)) out.push_back(x); for (E k : x->kids) st.push_back(k); }
}
const std::vector<uint32_t> &varIds(E e) {
  static std::unordered_map<E, std::vector<uint32_t>> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  std::vector<E> v; collectVars(e, v); std::vector<uint32_t> ids; for (E x : v) ids.push_back(x->id); std::sort(ids.begin(), ids.end()); return memo[e] = ids;
}
static double d_of(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t b_of(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static float f_of(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static uint32_t b_off(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static double fpv(const mpq_class &q, unsigned w) { uint64_t u = mpz_get_ui(q.get_num_mpz_t()); return w == 32 ? (double)f_of(u) : d_of(u); }
mpq_class Evaluator::eval(E e) {
  if (!ok) return 0;
  if (e->k == KAConst) return e->coef[0]; if (e->k == KBvConst) return mpq_class(bvBig(e)); if (e->k == KTrue) return 1; if (e->k == KFalse) return 0;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  mpq_class r; auto Z = [&](int i) { return mpz_class(eval(e->kids[i]).get_num()); };
  auto S = [&](int i) { return sgnBig(Z(i), e->kids[i]->w); };
  auto B = [&](bool b) { r = b ? 1 : 0; };
  auto M = [&](mpz_class v) { mpz_class m = mpz_class(1) << e->w; mpz_fdiv_r(v.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); r = v; };
  switch (e->k) {
  case KBVar: case KBvVar: case KAVar: { auto j = m.find(e->id); if (j != m.end()) r = j->second; else if (e->k == KAVar && e->bounded && (e->lo > 0 || e->hi < 0)) r = e->lo; else r = 0; break; }
  case KNot: B(eval(e->kids[0]) == 0); break;
  case KAnd: B(true); for (E k : e->kids) if (eval(k) == 0) { B(false); break; } break;
  case KOr: B(false); for (E k : e->kids) if (eval(k) != 0) { B(true); break; } break;
  case KBIte: case KBvIte: case KAIte: r = eval(eval(e->kids[0]) != 0 ? e->kids[1] : e->kids[2]); break;
  case KIff: B(eval(e->kids[0]) == eval(e->kids[1])); break;
  case KBvEq: B(eval(e->kids[0]) == eval(e->kids[1])); break;
  case KBvUlt: B(eval(e->kids[0]) < eval(e->kids[1])); break; case KBvUle: B(eval(e->kids[0]) <= eval(e->kids[1])); break;
  case KBvSlt: B(S(0) < S(1)); break; case KBvSle: B(S(0) <= S(1)); break;
  case KPLt: B(eval(e->kids[0]) < 0); break; case KPLe: B(eval(e->kids[0]) <= 0); break; case KPEq: B(eval(e->kids[0]) == 0); break;
  case KBvAdd: case KBvMul: case KBvUdiv: case KBvSdiv: case KBvUrem: case KBvSrem: case KBvAnd: case KBvOr: case KBvXor: case KBvShl: case KBvLshr: case KBvAshr: {
    mpz_class x = Z(0), y = Z(1), v; mpz_class MM = mpz_class(1) << e->w;
    switch (e->k) {
    case KBvAdd: v = x + y; break; case KBvMul: v = x * y; break; case KBvUdiv: v = y == 0 ? mpz_class(MM - 1) : mpz_class(x / y); break; case KBvUrem: v = y == 0 ? x : mpz_class(x % y); break;
    case KBvSdiv: { mpz_class sx = S(0), sy = S(1); if (sy == 0) v = sx < 0 ? 1 : -1; else mpz_tdiv_q(v.get_mpz_t(), sx.get_mpz_t(), sy.get_mpz_t()); break; }
    case KBvSrem: { mpz_class sx = S(0), sy = S(1); if (sy == 0) v = sx; else mpz_tdiv_r(v.get_mpz_t(), sx.get_mpz_t(), sy.get_mpz_t()); break; }
    case KBvAnd: v = x & y; break; case KBvOr: v = x | y; break; case KBvXor: v = x ^ y; break;
    case KBvShl: v = y >= e->w ? mpz_class(0) : mpz_class(x << y.get_ui()); break; case KBvLshr: v = y >= e->w ? mpz_class(0) : mpz_class(x >> y.get_ui()); break;
    default: { mpz_class sx = S(0); unsigned long s = y >= e->w ? e->w - 1 : y.get_ui(); mpz_fdiv_q_2exp(v.get_mpz_t(), sx.get_mpz_t(), s); } }
    M(v); break; }
  case KConcat: r = mpq_class((Z(0) << e->kids[1]->w) | Z(1)); break;
  case KExtract: M(Z(0) >> e->a); break; case KZExt: r = eval(e->kids[0]); break; case KSExt: M(S(0)); break;
  case KIntToBv: M(Z(0)); break;
  case KAMono: { r = 1; for (size_t i = 0; i < e->kids.size(); i++) { mpq_class v = eval(e->kids[i]); for (unsigned j = 0; j < e->exps[i]; j++) r *= v; } break; }
  case KASum: { r = 0; for (size_t i = 0; i < e->kids.size(); i++) r += e->coef[i] * eval(e->kids[i]); break; }
  case KADiv: { mpq_class d = eval(e->kids[1]); if (d == 0) { ok = false; return 0; } r = eval(e->kids[0]) / d; break; }
  case KIDiv: { mpz_class d = Z(1); if (d <= 0) { ok = false; return 0; } mpz_class q; floorDiv(q, Z(0), d); r = q; break; }
  case KIMod: { mpz_class d = Z(1); if (d <= 0) { ok = false; return 0; } mpz_class q; mpz_class n = Z(0); mpz_fdiv_r(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); r = q; break; }
  case KFloor: { mpq_class v = eval(e->kids[0]); mpz_class q; floorDiv(q, v.get_num(), v.get_den()); r = q; break; }
  case KBvToInt: r = e->a ? mpq_class(S(0)) : eval(e->kids[0]); break;
  case KFpCmp: { mpq_class qa = eval(e->kids[0]), qb = eval(e->kids[1]); double x = fpv(qa, e->kids[0]->w), y = fpv(qb, e->kids[1]->w); bool uno = std::isnan(x) || std::isnan(y); unsigned p = e->a; bool v = false;
    if (uno) v = p & 8; else { if ((p & 1) && x == y) v = true; if ((p & 2) && x > y) v = true; if ((p & 4) && x < y) v = true; } B(v); break; }
  case KFpOp: { unsigned kw = e->kids[0]->w; double res = 0; double x = 0, y = 0;
    if (e->a == FpFromS) { mpz_class z = S(0); long v = z.get_si(); if (e->w == 32) { float f = (float)v; r = mpq_class((unsigned long)b_off(f)); } else r = mpq_class((unsigned long)b_of((double)v)); break; }
    if (e->a == FpFromU) { unsigned long v = Z(0).get_ui(); if (e->w == 32) { float f = (float)v; r = mpq_class((unsigned long)b_off(f)); } else r = mpq_class((unsigned long)b_of((double)v)); break; }
    x = fpv(eval(e->kids[0]), kw); if (e->kids.size() > 1) y = fpv(eval(e->kids[1]), kw);
    if (e->a == FpToS || e->a == FpToU) { if (std::isnan(x) || fabs(x) > 9e18) { ok = false; return 0; } M(mpz_class((long)x)); break; }
    if (kw == 32 && e->a != FpCvt) { float fx = x, fy = y, fr; switch (e->a) { case FpAdd: fr = fx + fy; break; case FpSub: fr = fx - fy; break; case FpMul: fr = fx * fy; break; case FpDiv: fr = fx / fy; break; case FpSqrt: fr = sqrtf(fx); break; case FpFloor: fr = floorf(fx); break; case FpCeil: fr = ceilf(fx); break; case FpTrunc: fr = truncf(fx); break; default: ok = false; return 0; } r = mpq_class((unsigned long)b_off(fr)); break; }
    switch (e->a) { case FpAdd: res = x + y; break; case FpSub: res = x - y; break; case FpMul: res = x * y; break; case FpDiv: res = x / y; break; case FpSqrt: res = sqrt(x); break; case FpFloor: res = floor(x); break; case FpCeil: res = ceil(x); break; case FpTrunc: res = trunc(x); break; case FpCvt: res = x; break; default: ok = false; return 0; }
    r = e->w == 32 ? mpq_class((unsigned long)b_off((float)res)) : mpq_class((unsigned long)b_of(res)); break; }
  default: ok = false; return 0;
  }
  if (!ok) return 0;
  r.canonicalize(); memo[e->id] = r; return r;
}
}
