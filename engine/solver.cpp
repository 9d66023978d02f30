#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <unistd.h>
namespace ve {
SolverStats sstats; SolverCfg scfg;
static z3::context *C;
static bool verbose = getenv("VE_VERBOSE_SOLVER") != nullptr;
static z3::context &ctx() { if (!C) { C = new z3::context(); } return *C; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// ---- feature analysis
struct Feat { bool bv = false, fp = false, real = false, inte = false, nonlin = false, unbounded = false, uf = false, mix = false, idiv = false; unsigned bits = 1; };
static unsigned bitsOf(const mpz_class &v) { return mpz_sizeinbase(v.get_mpz_t(), 2) + 2; }
static std::unordered_map<uint32_t, Feat> featMemo;
static Feat join(const Feat &a, const Feat &b) { Feat r; r.bv = a.bv | b.bv; r.fp = a.fp | b.fp; r.real = a.real | b.real; r.inte = a.inte | b.inte; r.nonlin = a.nonlin | b.nonlin; r.unbounded = a.unbounded | b.unbounded; r.uf = a.uf | b.uf; r.mix = a.mix | b.mix; r.idiv = a.idiv | b.idiv; r.bits = std::max(a.bits, b.bits); return r; }
static const Feat &feat(E e) {
  auto it = featMemo.find(e->id); if (it != featMemo.end()) return it->second;
  Feat f; for (E k : e->kids) f = join(f, feat(k));
  switch (e->k) {
  case KBvVar: case KBvEq: case KBvUle: case KBvSle: f.bv = true; break;
  case KFpCmp: case KFpOp: f.fp = f.bv = true; break;
  case KAVar: if (e->s == SInt) f.inte = true; else f.real = true; break;
  case KAMono: f.nonlin = true; break;
  case KADiv: f.nonlin = f.real = true; break;
  case KIDiv: case KIMod: f.idiv = true; if (e->kids[1]->k != KAConst) f.nonlin = true; break;
  case KFloor: f.mix = true; break;
  case KBvToInt: case KIntToBv: f.mix = true; break;
  case KUF: f.uf = true; f.real = true; break;
  default: break;
  }
  if (e->s == SInt) { if (!e->bounded) f.unbounded = true; else { mpz_class m = abs(e->lo) > abs(e->hi) ? mpz_class(abs(e->lo)) : mpz_class(abs(e->hi)); f.bits = std::max(f.bits, bitsOf(m));
      if (e->k == KASum) { mpz_class t = 0; for (size_t i = 0; i < e->kids.size(); i++) { E k = e->kids[i]; if (!k->bounded) { f.unbounded = true; break; } mpz_class km = abs(k->lo) > abs(k->hi) ? mpz_class(abs(k->lo)) : mpz_class(abs(k->hi)); t += abs(e->coef[i].get_num()) * km; } f.bits = std::max(f.bits, bitsOf(t)); } } }
  else if (e->s == SReal && e->k != KAConst) f.real = true;
  return featMemo[e->id] = f;
}
// ---- translation
struct Tr {
  bool ibv; unsigned W; bool lin = false, abs = false; // lin: monomials, quotients and ints become free reals (a relaxation)
  std::unordered_map<uint32_t, z3::expr> memo;
  z3::expr toReal(const z3::expr &x) { return x.is_int() ? z3::to_real(x) : x; }
  z3::expr num(const mpq_class &q, bool real) {
    if (ibv) { mpz_class v = q.get_num(), m = mpz_class(1) << W; mpz_fdiv_r(v.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); return ctx().bv_val(v.get_str().c_str(), W); }
    std::string s = q.get_str(); return real ? ctx().real_val(s.c_str()) : ctx().int_val(s.c_str());
  }
  z3::expr arith(E e, bool real) { z3::expr x = tr(e); return (real && !ibv) ? toReal(x) : x; }
  z3::expr fp(E e) { z3::expr b = tr(e); return z3::expr(ctx(), Z3_mk_fpa_to_fp_bv(ctx(), b, fs(e->w))); }
  z3::sort fs(unsigned w) { return w == 32 ? ctx().fpa_sort<32>() : ctx().fpa_sort<64>(); }
  z3::expr tr(E e0) {
    // iterative post-order to avoid deep recursion
    auto f = memo.find(e0->id); if (f != memo.end()) return f->second;
    std::vector<std::pair<E, size_t>> st; st.push_back({e0, 0});
    while (!st.empty()) {
      auto &top = st.back(); E e = top.first;
      if (memo.count(e->id)) { st.pop_back(); continue; }
      if (top.second < e->kids.size()) { E k = e->kids[top.second++]; if (!memo.count(k->id)) st.push_back({k, 0}); continue; }
      z3::expr x = tr1(e); memo.emplace(e->id, x); st.pop_back();
    }
    return memo.find(e0->id)->second;
  }
  z3::expr K(E e, int i) { return memo.find(e->kids[i]->id)->second; }
  z3::expr tr1(E e) {
    z3::context &c = ctx();
    if (abs) switch (e->k) { case KPLe: case KPLt: case KPEq: return c.bool_const(("p!" + std::to_string(e->id)).c_str()); default: if (e->s == SInt || e->s == SReal) return c.real_val(0); break; }
    if (lin) switch (e->k) {
    case KAVar: return c.real_const(("l!" + std::to_string(e->id)).c_str());
    case KAMono: if (!e->kids.empty()) return c.real_const(("l!" + std::to_string(e->id)).c_str()); return num(1, true);
    case KADiv: case KIDiv: case KIMod: case KFloor: case KBvToInt: case KUF: return c.real_const(("l!" + std::to_string(e->id)).c_str());
    case KAConst: return num(e->coef[0], true);
    case KAIte: return z3::ite(K(e, 0), toReal(K(e, 1)), toReal(K(e, 2)));
    case KASum: { z3::expr_vector v(c); for (size_t i = 0; i < e->kids.size(); i++) { E k = e->kids[i]; if (k->k == KAMono && k->kids.empty()) { v.push_back(num(e->coef[i], true)); continue; } z3::expr x = K(e, i); v.push_back(e->coef[i] == 1 ? x : num(e->coef[i], true) * x); } return z3::sum(v); }
    case KIntToBv: return c.bv_const(("l!" + std::to_string(e->id)).c_str(), e->w);
    default: break;
    }
    switch (e->k) {
    case KTrue: return c.bool_val(true); case KFalse: return c.bool_val(false);
    case KBVar: return c.bool_const(("b!" + std::to_string(e->id)).c_str());
    case KNot: return !K(e, 0);
    case KAnd: { z3::expr_vector v(c); for (size_t i = 0; i < e->kids.size(); i++) v.push_back(K(e, i)); return z3::mk_and(v); }
    case KOr: { z3::expr_vector v(c); for (size_t i = 0; i < e->kids.size(); i++) v.push_back(K(e, i)); return z3::mk_or(v); }
    case KBIte: case KBvIte: return z3::ite(K(e, 0), K(e, 1), K(e, 2));
    case KAIte: { bool real = e->s == SReal && !ibv; z3::expr a = K(e, 1), b = K(e, 2); if (real) { a = toReal(a); b = toReal(b); } return z3::ite(K(e, 0), a, b); }
    case KIff: return K(e, 0) == K(e, 1);
    case KBvEq: return K(e, 0) == K(e, 1); case KBvUlt: return z3::ult(K(e, 0), K(e, 1)); case KBvUle: return z3::ule(K(e, 0), K(e, 1));
    case KBvSlt: return K(e, 0) < K(e, 1); case KBvSle: return K(e, 0) <= K(e, 1);
    case KBvConst: return c.bv_val(bvBig(e).get_str().c_str(), e->w);
    case KBvVar: return c.bv_const(("v!" + std::to_string(e->id)).c_str(), e->w);
    case KBvAdd: return K(e, 0) + K(e, 1); case KBvMul: return K(e, 0) * K(e, 1);
    case KBvUdiv: return z3::udiv(K(e, 0), K(e, 1)); case KBvSdiv: return K(e, 0) / K(e, 1);
    case KBvUrem: return z3::urem(K(e, 0), K(e, 1)); case KBvSrem: return z3::srem(K(e, 0), K(e, 1));
    case KBvAnd: return K(e, 0) & K(e, 1); case KBvOr: return K(e, 0) | K(e, 1); case KBvXor: return K(e, 0) ^ K(e, 1);
    case KBvShl: return z3::shl(K(e, 0), K(e, 1)); case KBvLshr: return z3::lshr(K(e, 0), K(e, 1)); case KBvAshr: return z3::ashr(K(e, 0), K(e, 1));
    case KConcat: return z3::concat(K(e, 0), K(e, 1)); case KExtract: return K(e, 0).extract(e->a + e->w - 1, e->a);
    case KZExt: return z3::zext(K(e, 0), e->w - e->kids[0]->w); case KSExt: return z3::sext(K(e, 0), e->w - e->kids[0]->w);
    case KIntToBv: { z3::expr x = K(e, 0); if (ibv) { if (e->w <= W) return x.extract(e->w - 1, 0); return z3::sext(x, e->w - W); } return z3::int2bv(e->w, x); }
    case KBvToInt: { z3::expr x = K(e, 0); unsigned w = e->kids[0]->w; if (ibv) { if (w >= W) return x.extract(W - 1, 0); return e->a ? z3::sext(x, W - w) : z3::zext(x, W - w); } return z3::bv2int(x, e->a); }
    case KAConst: return num(e->coef[0], e->s == SReal);
    case KAVar: { std::string n = "a!" + std::to_string(e->id); if (ibv) return c.bv_const(n.c_str(), W); return e->s == SInt ? c.int_const(n.c_str()) : c.real_const(n.c_str()); }
    case KAMono: { bool real = e->s == SReal; z3::expr r(c); bool first = true; if (e->kids.empty()) return num(1, false);
      for (size_t i = 0; i < e->kids.size(); i++) { z3::expr x = K(e, i); if (real && !ibv) x = toReal(x); for (unsigned j = 0; j < e->exps[i]; j++) { if (first) { r = x; first = false; } else r = r * x; } } return r; }
    case KASum: { bool real = e->s == SReal && !ibv; z3::expr_vector v(c);
      for (size_t i = 0; i < e->kids.size(); i++) { E k = e->kids[i]; if (k->k == KAMono && k->kids.empty()) { v.push_back(num(e->coef[i], real)); continue; } z3::expr x = K(e, i); if (real) x = toReal(x); if (e->coef[i] == 1) v.push_back(x); else v.push_back(num(e->coef[i], real) * x); }
      if (ibv) { z3::expr r = v[0]; for (unsigned i = 1; i < v.size(); i++) r = r + v[i]; return r; } return z3::sum(v); }
    case KADiv: return toReal(K(e, 0)) / toReal(K(e, 1));
    case KIDiv: if (ibv) { z3::expr a = K(e, 0), b = K(e, 1); E ea = e->kids[0]; if (ea->bounded && ea->lo >= 0) return z3::udiv(a, b); z3::expr m(c, Z3_mk_bvsmod(c, a, b)); return (a - m) / b; } return z3::expr(c, Z3_mk_div(c, K(e, 0), K(e, 1)));
    case KIMod: if (ibv) { E ea = e->kids[0]; if (ea->bounded && ea->lo >= 0) return z3::urem(K(e, 0), K(e, 1)); return z3::expr(c, Z3_mk_bvsmod(c, K(e, 0), K(e, 1))); } return z3::mod(K(e, 0), K(e, 1));
    case KFloor: return z3::expr(c, Z3_mk_real2int(c, toReal(K(e, 0))));
    case KPLt: case KPLe: case KPEq: { z3::expr x = K(e, 0); bool real = x.is_real(); z3::expr z = ibv ? c.bv_val(0, W) : (real ? c.real_val(0) : c.int_val(0)); return e->k == KPLt ? x < z : e->k == KPLe ? x <= z : x == z; }
    case KUF: { z3::sort_vector d(c); z3::expr_vector a(c); for (size_t i = 0; i < e->kids.size(); i++) { d.push_back(c.real_sort()); a.push_back(toReal(K(e, i))); } z3::func_decl f = c.function(e->name->c_str(), d, c.real_sort()); return f(a); }
    case KFpCmp: { z3::expr a = fp(e->kids[0]), b = fp(e->kids[1]); z3::expr un = z3::expr(c, Z3_mk_fpa_is_nan(c, a)) || z3::expr(c, Z3_mk_fpa_is_nan(c, b)); unsigned p = e->a; z3::expr r = c.bool_val(false);
      if (p & 1) r = r || z3::expr(c, Z3_mk_fpa_eq(c, a, b)); if (p & 2) r = r || z3::expr(c, Z3_mk_fpa_gt(c, a, b)); if (p & 4) r = r || z3::expr(c, Z3_mk_fpa_lt(c, a, b)); if (p & 8) r = r || un; return r; }
    case KFpOp: { z3::expr rm(c, Z3_mk_fpa_rne(c)); Z3_ast r = nullptr; unsigned kw = e->kids[0]->w; 
      if (e->a == FpFromS) r = Z3_mk_fpa_to_fp_signed(c, rm, K(e, 0), fs(e->w)); else if (e->a == FpFromU) r = Z3_mk_fpa_to_fp_unsigned(c, rm, K(e, 0), fs(e->w));
      else { z3::expr a = fp(e->kids[0]);
        switch (e->a) {
        case FpAdd: r = Z3_mk_fpa_add(c, rm, a, fp(e->kids[1])); break; case FpSub: r = Z3_mk_fpa_sub(c, rm, a, fp(e->kids[1])); break;
        case FpMul: r = Z3_mk_fpa_mul(c, rm, a, fp(e->kids[1])); break; case FpDiv: r = Z3_mk_fpa_div(c, rm, a, fp(e->kids[1])); break;
        case FpRem: r = Z3_mk_fpa_rem(c, a, fp(e->kids[1])); break; case FpSqrt: r = Z3_mk_fpa_sqrt(c, rm, a); break;
        case FpCvt: r = Z3_mk_fpa_to_fp_float(c, rm, a, fs(e->w)); break;
        case FpToS: return z3::expr(c, Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, e->w)); case FpToU: return z3::expr(c, Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, e->w));
        case FpFloor: r = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), a); break; case FpCeil: r = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), a); break; case FpTrunc: r = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), a); break;
        case FpMin: r = Z3_mk_fpa_min(c, a, fp(e->kids[1])); break; case FpMax: r = Z3_mk_fpa_max(c, a, fp(e->kids[1])); break;
        default: abort();
        } }
      (void)kw; z3::expr rr(c, r); return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, rr)); }
    default: fprintf(stderr, "solver: cannot translate kind %d\n", e->k); abort();
    }
  }
};
static std::map<unsigned, Tr*> trs;
static Tr &trFor(bool ibv, unsigned W) { unsigned key = ibv ? W : 0; auto &t = trs[key]; if (!t) { t = new Tr(); t->ibv = ibv; t->W = W; } return *t; }
void initExpr() { aAdd(aConst(1, SInt), aVar("!dummy", SInt)); }
static bool parseNum(const z3::expr &v, mpq_class &q, bool &exact) {
  try {
    if (v.is_bool()) { q = v.is_true() ? 1 : 0; return true; }
    if (v.is_algebraic()) { std::string s = v.get_decimal_string(30); exact = false; if (!s.empty() && s.back() == '?') s.pop_back(); bool neg = s[0] == '-'; if (neg) s = s.substr(1); size_t p = s.find('.'); std::string ip = p == std::string::npos ? s : s.substr(0, p), fr = p == std::string::npos ? "" : s.substr(p + 1); mpz_class n(ip + fr), d = 1; for (size_t i = 0; i < fr.size(); i++) d *= 10; q = mpq_class(n, d); q.canonicalize(); if (neg) q = -q; return true; }
    if (v.is_numeral()) { q = mpq_class(Z3_get_numeral_string(ctx(), v)); q.canonicalize(); return true; }
  } catch (...) {}
  return false;
}
static Res runZ3(z3::solver &s, unsigned ms) {
  z3::params p(ctx()); p.set("timeout", ms); s.set(p);
  try { auto r = s.check(); return r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN; } catch (z3::exception &ex) { if (verbose) fprintf(stderr, "z3 exception %s\n", ex.msg()); return UNKNOWN; }
}
static Res runCvc5(const std::string &smt, unsigned ms) {
  char fn[] = "/tmp/ve_cvc5_XXXXXX"; int fd = mkstemp(fn); FILE *f = fdopen(fd, "w"); fputs("(set-logic ALL)\n", f); fputs(smt.c_str(), f); fputs("\n", f); fclose(f);
  std::string cmd = "timeout " + std::to_string(ms / 1000 + 1) + " cvc5 --tlimit=" + std::to_string(ms) + " " + fn + " 2>/dev/null"; FILE *p = popen(cmd.c_str(), "r"); char buf[256]; std::string out; while (fgets(buf, sizeof buf, p)) out += buf; pclose(p); unlink(fn);
  if (out.find("(error") != std::string::npos) return UNKNOWN; if (out.rfind("unsat", 0) == 0) return UNSAT; if (out.rfind("sat", 0) == 0) return SAT; return UNKNOWN;
}
static std::map<std::vector<uint32_t>, std::pair<Res, std::pair<Model, bool>>> cache;
static void flatten(E e, std::set<E> &out) { if (e->k == KAnd) for (E k : e->kids) flatten(k, out); else if (e->k == KNot && e->kids[0]->k == KOr) for (E k : e->kids[0]->kids) flatten(mkNot(k), out); else if (!isTrue(e)) out.insert(e); }
static const char *simpleReals[] = {nullptr};
Res solve(const std::vector<E> &cs0, Model *m, bool *exact, bool hard) {
  std::set<E> cs; for (E e : cs0) { if (isFalse(e)) return UNSAT; flatten(e, cs); }
  for (E e : cs) if (isFalse(e)) return UNSAT;
  if (exact) *exact = true;
  if (cs.empty()) { if (m) m->clear(); return SAT; }
  for (E e : cs) if (e->k == KNot ? cs.count(e->kids[0]) : cs.count(mkNot(e))) return UNSAT;
  std::vector<uint32_t> key; for (E e : cs) key.push_back(e->id); std::sort(key.begin(), key.end());
  auto it = cache.find(key);
  if (it != cache.end() && (it->second.first != UNKNOWN || !hard)) { sstats.cacheHits++; if (m) *m = it->second.second.first; if (exact) *exact = it->second.second.second; return it->second.first; }
  Feat f; for (E e : cs) f = join(f, feat(e));
  bool ibv = false; unsigned W = 0;
  if (f.inte && !f.real && !f.uf && !f.unbounded && (scfg.intAsBv || f.mix) && !(f.mix && f.real)) { ibv = true; W = f.bits + 1; if (f.idiv) W += 1; W = (W + 7) / 8 * 8; }
  Tr &T = trFor(ibv, W);
  double t0 = now(); sstats.queries++;
  if (f.real && f.nonlin) { // identities modulo denominators and root definitions
    std::vector<RootRule> rules; for (E e : cs) if (e->k == KPEq) { RootRule r; if (rootRule(e->kids[0], r)) rules.push_back(r); }
    std::vector<std::pair<E, E>> repl;
    for (E e : cs) if (e->k == KNot && e->kids[0]->k == KPEq) { E p = e->kids[0]->kids[0], q = algebraReduce(p, rules); mpq_class c; if (q && aIsConst(q, c) && c == 0) { double dt = now() - t0; sstats.time += dt; sstats.unsat++; sstats.algebra++; cache[key] = {UNSAT, {Model(), true}}; return UNSAT; } if (q && q != p) repl.push_back({e, mkNot(aEq(q, aConst(0, SReal)))}); }
    if (scfg.algebraReplace) for (auto &r : repl) { cs.erase(r.first); if (isFalse(r.second)) return UNSAT; if (!isTrue(r.second)) cs.insert(r.second); }
  }
  z3::expr_vector as(ctx());
  std::set<E> vars; { std::vector<E> vv; for (E e : cs) { vv.clear(); collectVars(e, vv); vars.insert(vv.begin(), vv.end()); } }
  for (E e : cs) as.push_back(T.tr(e));
  for (E v : vars) if (v->k == KAVar && v->s == SInt && v->bounded) { z3::expr x = T.tr(v); as.push_back(ibv ? (x >= T.num(mpq_class(v->lo), false)) : (x >= ctx().int_val(v->lo.get_str().c_str()))); as.push_back(ibv ? (x <= T.num(mpq_class(v->hi), false)) : (x <= ctx().int_val(v->hi.get_str().c_str()))); }
  unsigned ms = hard ? scfg.hardTimeoutMs : scfg.timeoutMs;
  Res r = UNKNOWN; Model mod; bool ex = true;
  auto attempt = [&](z3::solver &s, unsigned t) {
    for (unsigned i = 0; i < as.size(); i++) s.add(as[i]);
    r = runZ3(s, t);
    if (r == SAT) { z3::model zm = s.get_model(); ex = true; for (E v : vars) { z3::expr val = zm.eval(T.tr(v), true); mpq_class q; if (!parseNum(val, q, ex)) ex = false;
        if (ibv && v->k == KAVar) { mpz_class z = q.get_num(); if (mpz_tstbit(z.get_mpz_t(), W - 1)) z -= mpz_class(1) << W; q = z; }
        mod[v->id] = q; } }
  };
  bool nra = f.real && f.nonlin;
  if (f.nonlin && !f.fp) { // propositional abstraction: atoms over one polynomial only know their order
    static Tr *A = nullptr; if (!A) { A = new Tr(); A->ibv = false; A->W = 0; A->lin = true; A->abs = true; }
    try {
      z3::solver s(ctx(), "QF_UFBV"); bool okk = true; for (E e : cs) s.add(A->tr(e));
      std::set<uint32_t> seen; std::vector<E> stk(cs.begin(), cs.end()); std::map<E, std::vector<std::pair<mpz_class, E>>> by; std::map<E, std::vector<E>> byr;
      while (!stk.empty()) { E e = stk.back(); stk.pop_back(); if (!seen.insert(e->id).second) continue;
        if (e->k == KPLe || e->k == KPLt || e->k == KPEq) { E b; mpz_class t; if (splitAtom(e, b, t)) by[b].push_back({t, e}); else byr[e->kids[0]].push_back(e); continue; }
        for (E k : e->kids) stk.push_back(k); }
      for (auto &g : by) for (size_t i = 0; i < g.second.size(); i++) for (size_t j = 0; j < g.second.size(); j++) if (i != j) { auto &x = g.second[i], &y = g.second[j]; z3::expr a = A->tr(x.second), b = A->tr(y.second); bool xe = x.second->k == KPEq, ye = y.second->k == KPEq;
            if (!xe && !ye) { if (x.first <= y.first) s.add(z3::implies(a, b)); } else if (xe && !ye) { s.add(x.first <= y.first ? z3::implies(a, b) : z3::implies(a, !b)); if (y.first == x.first) for (auto &z : g.second) if (z.second->k == KPLe && z.first == x.first - 1) s.add(z3::implies(b && !A->tr(z.second), a)); } else if (xe && ye && i < j) s.add(!(a && b)); }
      for (auto &g : byr) { z3::expr lt(ctx()), le(ctx()), eq(ctx()); bool hl = 0, he = 0, hq = 0; for (E e : g.second) { if (e->k == KPLt) { lt = A->tr(e); hl = 1; } if (e->k == KPLe) { le = A->tr(e); he = 1; } if (e->k == KPEq) { eq = A->tr(e); hq = 1; } }
        if (hl && he) s.add(z3::implies(lt, le)); if (hq && he) s.add(z3::implies(eq, le)); if (hl && hq) s.add(!(lt && eq)); if (hl && he && hq) s.add(z3::implies(le, lt || eq)); }
      double t1 = now(); Res q = runZ3(s, std::min(ms, 2000u)); if (verbose && now() - t1 > 0.3) fprintf(stderr, "[abstract] %.2fs r=%d\n", now() - t1, q);
      if (q == UNSAT) { double dt = now() - t0; sstats.time += dt; sstats.unsat++; sstats.relaxed++; cache[key] = {UNSAT, {Model(), true}}; return UNSAT; } (void)okk;
    } catch (z3::exception &e2) { if (verbose) fprintf(stderr, "z3 abstract: %s\n", e2.msg()); }
  }
  if (f.nonlin && !f.fp && !f.bv) { // relaxation: every monomial an independent real
    static Tr *L = nullptr; if (!L) { L = new Tr(); L->ibv = false; L->W = 0; L->lin = true; }
    try {
      z3::solver s(ctx(), "QF_LRA"); for (E e : cs) s.add(L->tr(e)); std::set<uint32_t> seen; std::vector<E> stk(cs.begin(), cs.end());
      while (!stk.empty()) { E e = stk.back(); stk.pop_back(); if (!seen.insert(e->id).second) continue; for (E k : e->kids) stk.push_back(k);
        if (e->k != KAVar && e->k != KAMono && e->k != KIDiv && e->k != KIMod && e->k != KFloor && e->k != KBvToInt) continue; if (e->k == KAMono && e->kids.empty()) continue;
        z3::expr x = L->tr(e); if (e->s == SInt && e->bounded) { s.add(x >= ctx().real_val(e->lo.get_str().c_str())); s.add(x <= ctx().real_val(e->hi.get_str().c_str())); }
        if (e->k == KAMono) { bool even = true; for (auto q : e->exps) if (q % 2) even = false; if (even) s.add(x >= 0); } }
      double t1 = now(); Res q = runZ3(s, std::min(ms, 3000u)); if (verbose && now() - t1 > 0.5) fprintf(stderr, "[relax] %.2fs r=%d\n", now() - t1, q);
      if (q == UNSAT) { double dt = now() - t0; sstats.time += dt; sstats.unsat++; sstats.relaxed++; cache[key] = {UNSAT, {mod, ex}}; return UNSAT; }
    } catch (z3::exception &e2) { if (verbose) fprintf(stderr, "z3 relax: %s\n", e2.msg()); }
  }
  try {
    if (ibv || (f.bv && !f.real && !f.inte && !f.fp)) { z3::solver s(ctx(), "QF_BV"); attempt(s, ms); }
    else if (f.fp && !f.real && !f.inte) { z3::solver s(ctx(), "QF_FPBV"); attempt(s, ms); }
    else if (nra && !f.inte && !f.uf && !f.bv && !f.mix) {
      { z3::solver s(ctx(), "QF_NRA"); attempt(s, hard ? ms / 3 : ms / 2); }
      if (r == UNKNOWN) { z3::solver s(ctx()); attempt(s, hard ? ms / 3 : ms / 2); }
      if (r == UNKNOWN && hard) { z3::solver s = z3::tactic(ctx(), "qfnra-nlsat").mk_solver(); attempt(s, ms / 3); }
    } else { if (f.inte && !f.nonlin && !f.fp && !f.bv && !f.uf && !f.mix && !f.idiv) { z3::solver s(ctx(), f.real ? "QF_LIRA" : "QF_LIA"); attempt(s, ms / 2); } if (r == UNKNOWN) { z3::solver s(ctx()); attempt(s, ms); } }
  } catch (z3::exception &e2) { if (verbose) fprintf(stderr, "z3: %s\n", e2.msg()); r = UNKNOWN; }
  if (r == UNKNOWN && hard && scfg.useCvc5) { try { z3::solver s(ctx()); for (unsigned i = 0; i < as.size(); i++) s.add(as[i]); std::string q = s.to_smt2(); Res r2 = runCvc5(q, ms / 2); if (r2 == UNSAT) r = UNSAT; } catch (...) {} }
  double dt = now() - t0; sstats.time += dt; if (dt > sstats.maxTime) sstats.maxTime = dt;
  if (verbose && dt > 0.5 && f.mix) { std::set<uint32_t> seen; std::vector<E> stk(cs.begin(), cs.end()); int n = 0; while (!stk.empty() && n < 8) { E e = stk.back(); stk.pop_back(); if (!seen.insert(e->id).second) continue; if (e->k == KIntToBv || e->k == KBvToInt || e->k == KFloor) { fprintf(stderr, "  mixed: %s\n", toStr(e, 12).substr(0, 1500).c_str()); n++; } for (E k : e->kids) stk.push_back(k); } }
  if (verbose && dt > 0.5) fprintf(stderr, "[solver] %.2fs r=%d n=%zu nra=%d ibv=%d W=%u\n", dt, r, cs.size(), nra, ibv, W);
  static double dmin = getenv("VE_DUMPMIN") ? atof(getenv("VE_DUMPMIN")) : 2; if (scfg.dump && (dt > dmin || r == UNKNOWN)) { static int n = 0; std::string fn = scfg.dumpDir + "/q" + std::to_string(n++) + ".smt2"; std::ofstream o(fn); z3::solver s(ctx()); for (unsigned i = 0; i < as.size(); i++) s.add(as[i]); o << "; r=" << r << " t=" << dt << "\n" << s.to_smt2(); }
  if (r == SAT) sstats.sat++; else if (r == UNSAT) sstats.unsat++; else sstats.unknown++;
  cache[key] = {r, {mod, ex}};
  if (m) *m = mod; if (exact) *exact = ex;
  (void)simpleReals;
  return r;
}
void slice(const std::vector<E> &pc, E focus, std::vector<E> &out) {
  std::set<uint32_t> vs(varIds(focus).begin(), varIds(focus).end()); std::vector<char> used(pc.size(), 0); bool ch = true; out.clear();
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { const auto &v = varIds(pc[i]); bool hit = false; for (auto x : v) if (vs.count(x)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; vs.insert(v.begin(), v.end()); } } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
}
std::string smt2(const std::vector<E> &cs) { Tr &T = trFor(false, 0); z3::solver s(ctx()); for (E e : cs) s.add(T.tr(e)); return s.to_smt2(); }
}
