// Symbolic executor over LLVM IR (see DESIGN.md, "Engine").
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <deque>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <chrono>
#include <unordered_set>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
namespace ve {
typedef std::vector<struct Val> Agg;
struct Val { uint8_t t = 0; uint64_t c = 0; union { E e; Agg *g; }; Val() : e(nullptr) {} };
enum { VUnset = 0, VConc = 1, VSym = 2 /*BV/Bool/Int*/, VAgg = 3, VReal = 4 };
static Val conc(uint64_t c) { Val v; v.t = VConc; v.c = c; return v; }
static Val aggv(Agg a) { Val v; v.t = VAgg; v.g = new Agg(std::move(a)); return v; }
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t s = 1ull << (w - 1); return (int64_t)((v ^ s) - s); }
static double dOf(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t bOf(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static double fOf(uint64_t b) { float d; uint32_t x = b; memcpy(&d, &x, 4); return d; }
static uint64_t bOff(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static double fpOf(uint64_t b, unsigned w) { return w == 32 ? fOf(b) : dOf(b); }
static uint64_t toBits(double d, unsigned w) { return w == 32 ? bOff((float)d) : bOf(d); }
struct EngineError { std::string msg; };
struct PathEnd { std::string why; };    // path killed silently (infeasible / ended)
struct Forked {};                        // re-execute current instruction
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// symbolic Expr -> Val with normalisation
static Val symI(E e, unsigned w) { // integer-ish
  if (e->s == SBool) { if (isTrue(e)) return conc(1); if (isFalse(e)) return conc(0); }
  uint64_t k; if (bvIsConst(e, k)) return conc(k);
  if (e->k == KAConst && w <= 64) { mpz_class z = e->coef[0].get_num(); mpz_class m = mpz_class(1) << w, r; mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), m.get_mpz_t()); return conc(mpz_get_ui(r.get_mpz_t())); }
  Val v; v.t = VSym; v.e = e; v.c = 0; return v;
}
static bool exactDouble(const mpq_class &q, double &d) { d = q.get_d(); return std::isfinite(d) && mpq_class(d) == q; }
static Val realV(E e, unsigned w) {
  if (e->k == KAConst) { double d; if (exactDouble(e->coef[0], d)) { if (w == 64) return conc(bOf(d)); if ((double)(float)d == d) return conc(bOff((float)d)); } }
  Val v; v.t = VReal; v.e = e; return v;
}
// ---------------------------------------------------------------- memory
struct Cell { Val v; uint32_t n; };
struct Object { uint32_t size = 0; bool ro = false; bool opaque = false; uint8_t kind = 0; std::vector<uint8_t> d, st; std::map<uint32_t, Cell> sym; std::string name; };
typedef std::shared_ptr<Object> OP;
enum { CH = 64 };
struct Chunk { OP o[CH]; };
struct ClassTab { std::vector<std::shared_ptr<Chunk>> ch; uint32_t next = 0; };
static const unsigned OFFB = 24, CNTB = 24;
static inline uint32_t keyClass(uint64_t a) { return (a >> (OFFB + CNTB)); }
static inline uint32_t keyCnt(uint64_t a) { return (a >> OFFB) & ((1u << CNTB) - 1); }
static inline uint64_t mkAddr(uint32_t cls, uint32_t cnt) { return ((uint64_t)cls << (OFFB + CNTB)) | ((uint64_t)cnt << OFFB); }
struct Memory {
  std::vector<std::shared_ptr<ClassTab>> cls;
  ClassTab &tabW(uint32_t c) { if (c >= cls.size()) cls.resize(c + 1); if (!cls[c]) cls[c] = std::make_shared<ClassTab>(); else if (cls[c].use_count() > 1) cls[c] = std::make_shared<ClassTab>(*cls[c]); return *cls[c]; }
  const Object *get(uint64_t a) const { uint32_t c = keyClass(a), n = keyCnt(a); if (c >= cls.size() || !cls[c]) return nullptr; auto &t = *cls[c]; if (n / CH >= t.ch.size() || !t.ch[n / CH]) return nullptr; return t.ch[n / CH]->o[n % CH].get(); }
  OP *slotW(uint32_t c, uint32_t n) { auto &t = tabW(c); if (n / CH >= t.ch.size()) t.ch.resize(n / CH + 1); auto &p = t.ch[n / CH]; if (!p) p = std::make_shared<Chunk>(); else if (p.use_count() > 1) p = std::make_shared<Chunk>(*p); return &p->o[n % CH]; }
  Object *getW(uint64_t a) { OP *s = slotW(keyClass(a), keyCnt(a)); if (!*s) return nullptr; if (s->use_count() > 1) *s = std::make_shared<Object>(**s); return s->get(); }
};
static std::map<uint64_t, uint32_t> sizeClass; // (size<<1|stack) -> class
static uint32_t nextClass = 16;
static uint32_t classOf(uint64_t size, bool stack) { auto &c = sizeClass[size * 2 + stack]; if (!c) c = nextClass++; if (c >= (1u << 15)) throw EngineError{"too many size classes"}; return c; }
enum { CLS_GLOBAL = 1, CLS_FUNC = 2 };
// ---------------------------------------------------------------- program
struct Opnd { int slot = -1; Val cv; };
struct PI { const Instruction *I; unsigned op; int dst = -1; std::vector<Opnd> o; unsigned w = 0; bool isF = false; const Function *callee = nullptr; int t0 = -1, t1 = -1; std::vector<std::pair<int64_t, int>> scale; int64_t base = 0; uint64_t sz = 0; int intr = 0; };
struct FInfo;
struct PBlock { const BasicBlock *bb; int first; int firstNonPhi; int ipdom = -2; bool visited = false; std::map<int, std::vector<std::pair<int, Opnd>>> phis; };
struct FInfo { const Function *F; std::vector<PI> ins; std::vector<PBlock> bl; int nslots = 0; bool pd = false; std::string dem; bool visited = false; };
struct Frame { FInfo *f; int block = 0, pc = 0; std::vector<Val> r; std::vector<uint64_t> allocas; int retBlockNormal = -1, retBlockUnwind = -1; std::vector<Val> va; };
struct State;
struct Group { int live = 1; std::vector<State*> parked; int depth; int block; bool explicitG = false; uint64_t id; };
typedef std::shared_ptr<Group> GP;
struct Input { std::string name; int idx; std::string kind; E e; uint64_t c; };
struct State {
  uint64_t id; std::vector<Frame> fr; Memory mem; std::vector<E> pc; std::unordered_set<E> pcset; std::vector<GP> groups; std::vector<Input> inputs; std::shared_ptr<Model> model; std::unordered_map<E, std::pair<std::shared_ptr<mpz_class>, std::shared_ptr<mpz_class>>> bounds; bool automerge = false; bool lazy = false; uint64_t steps = 0; uint64_t forks = 0;
  std::map<uint32_t, std::vector<uint64_t>> dummy; Val exc; uint64_t excType = 0; std::map<std::string, int> fresh; bool maybeInfeasible = false; std::vector<std::pair<uint64_t, uint64_t>> loopCnt;
};
struct Violation { std::string key, msg, kind; std::vector<std::pair<std::string, std::string>> inputs; bool exact; std::string where; };
struct Cfg { bool real = true; double maxTime = 600; uint64_t maxStates = 2000000; uint64_t maxSteps = 40000000000ull; bool lazy = false; std::string out, replay; int maxViol = 3; bool verbose = false; std::string repo = "/repo"; std::map<std::string, std::string> concrete; bool concreteMode = false; uint64_t pathSteps = 4000000000ull; unsigned maxResolve = 300; int samples = 3; } cfg;
struct Stats { uint64_t paths = 0, ended = 0, forks = 0, merges = 0, mergeFail = 0, steps = 0, asserts = 0, assertsProved = 0, assertsTrivial = 0, violations = 0, unknown = 0, states = 0, killed = 0, infeasible = 0; } st;
static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::map<const Function*, FInfo*> finfos; static std::map<const GlobalValue*, uint64_t> gaddr; static std::vector<const Function*> funcs;
static std::set<std::string> covered; static std::map<std::string, uint64_t> reaches; static std::vector<Violation> viols; static std::map<std::string, int> violCount; static std::vector<std::string> incompletes; static std::map<std::string, uint64_t> unknownAsserts; static std::map<std::string, std::pair<uint64_t, uint64_t>> assertStat; static std::vector<std::vector<std::pair<std::string, std::string>>> samples; static std::vector<State*> work; static uint64_t nextState = 1, nextGroup = 1; static std::set<std::string> assumptions;
static double T0;
static void incomplete(const std::string &s) { for (auto &x : incompletes) if (x == s) return; incompletes.push_back(s); if (cfg.verbose) fprintf(stderr, "INCOMPLETE: %s\n", s.c_str()); }

// ---------------------------------------------------------------- value helpers
static E asBV(const Val &v, unsigned w) {
  if (v.t == VConc) return bvConst(v.c, w);
  if (v.t == VSym) { if (v.e->s == SBV) return v.e; if (v.e->s == SBool) return bvIte(v.e, bvConst(1, w), bvConst(0, w)); return intToBv(v.e, w); }
  if (v.t == VReal) throw EngineError{"real value used as bits"};
  throw EngineError{"asBV on unset value"};
}
static E asBool(const Val &v) { if (v.t == VConc) return mkBool(v.c & 1); if (v.t == VSym) { if (v.e->s == SBool) return v.e; if (v.e->s == SBV) return bvEq(bvExtract(v.e, 0, 1), bvConst(1, 1)); return aEq(iMod(v.e, aConst(2, SInt)), aConst(1, SInt)); } throw EngineError{"asBool"}; }
static bool isIntSort(const Val &v) { return v.t == VSym && v.e->s == SInt; }
static E asInt(const Val &v, unsigned w) { // signed representative
  if (v.t == VConc) return aConst(mpq_class(mpz_class((long)sx(v.c, w))), SInt);
  if (v.t == VSym) { if (v.e->s == SInt) return v.e; if (v.e->s == SBV) return bvToInt(v.e, true); if (v.e->s == SBool) return aIte(v.e, aConst(w == 1 ? -1 : 1, SInt), aConst(0, SInt)); }
  if (v.t == VReal) throw EngineError{"real value used as integer"};
  throw EngineError{"asInt"};
}
static E asUInt(const Val &v, unsigned w) {
  if (v.t == VConc) return aConst(mpq_class(mpz_class((unsigned long)(v.c & maskw(w)))), SInt);
  E e = asInt(v, w); if (v.t == VSym && v.e->s == SBV) return bvToInt(v.e, false); mpz_class lo, hi; if (intInterval(e, lo, hi) && lo >= 0) return e; return aIte(aLt(e, aConst(0, SInt)), aAdd(e, aConst(mpq_class(mpz_class(1) << w), SInt)), e);
}
static E bvToRealLeaves(E e, unsigned w) { uint64_t k; if (bvIsConst(e, k)) { double d = fpOf(k, w); if (!std::isfinite(d)) throw EngineError{"non-finite constant in real ite"}; return aConst(mpq_class(d), SReal); } if (e->k == KBvIte) return aIte(e->kids[0], bvToRealLeaves(e->kids[1], w), bvToRealLeaves(e->kids[2], w)); throw EngineError{"bits used as real: " + toStr(e, 3)}; }
static bool isSpecial(const Val &v, unsigned w) { return v.t == VConc && !std::isfinite(fpOf(v.c, w)); }
static E asReal(const Val &v, unsigned w) {
  if (v.t == VReal) return v.e;
  if (v.t == VConc) { double d = fpOf(v.c, w); if (!std::isfinite(d)) throw EngineError{"non-finite as real"}; return aConst(mpq_class(d), SReal); }
  if (v.t == VSym && v.e->s == SBV) return bvToRealLeaves(v.e, w);
  throw EngineError{"asReal on integer value"};
}
static E wrapI(E r, unsigned w) {
  mpz_class lo, hi, H = mpz_class(1) << (w - 1); if (intInterval(r, lo, hi) && lo >= -H && hi < H) return r;
  return aSub(iMod(aAdd(r, aConst(mpq_class(H), SInt)), aConst(mpq_class(H * 2), SInt)), aConst(mpq_class(H), SInt));
}
static E wrapU(E r, unsigned w) { // from unsigned representative in [0,2^w)
  mpz_class lo, hi, H = mpz_class(1) << (w - 1); if (intInterval(r, lo, hi) && lo >= 0 && hi < H) return r; return wrapI(r, w);
}
static bool mergeVal(E c, const Val &a, const Val &b, unsigned w, Val &r) { // c ? a : b ; w bits
  if (a.t == b.t) { if (a.t == VConc && a.c == b.c) { r = a; return true; } if ((a.t == VSym || a.t == VReal) && a.e == b.e) { r = a; return true; } if (a.t == VUnset) { r = a; return true; } }
  if (a.t == VUnset || b.t == VUnset) { r = Val(); return true; }
  if (a.t == VAgg || b.t == VAgg) { if (a.t != b.t || a.g->size() != b.g->size()) return false; Agg g(a.g->size()); for (size_t i = 0; i < g.size(); i++) if (!mergeVal(c, (*a.g)[i], (*b.g)[i], 64, g[i])) return false; r = aggv(g); return true; }
  try {
    if (a.t == VReal || b.t == VReal) { unsigned fw = w == 32 ? 32 : 64; r = realV(aIte(c, asReal(a, fw), asReal(b, fw)), fw); return true; }
    bool bo = (a.t == VSym && a.e->s == SBool) || (b.t == VSym && b.e->s == SBool);
    if (bo && w == 1) { r = symI(mkBIte(c, asBool(a), asBool(b)), 1); return true; }
    if (isIntSort(a) || isIntSort(b)) { r = symI(aIte(c, asInt(a, w), asInt(b, w)), w); return true; }
    if (w == 1) { r = symI(mkBIte(c, asBool(a), asBool(b)), 1); return true; }
    r = symI(bvIte(c, asBV(a, w), asBV(b, w)), w); return true;
  } catch (EngineError &) { return false; }
}
// ---------------------------------------------------------------- path condition
// facts of the path: set of literals plus an interval per integer form
static void noteFact(State &S, E c) {
  if (!S.pcset.insert(c).second) return;
  bool neg = c->k == KNot; E a = neg ? c->kids[0] : c; E body; mpz_class t; if (!splitAtom(a, body, t)) return;
  auto &iv = S.bounds[body];
  auto lo = [&](const mpz_class &v) { if (!iv.first || *iv.first < v) iv.first = std::make_shared<mpz_class>(v); }; auto hi = [&](const mpz_class &v) { if (!iv.second || *iv.second > v) iv.second = std::make_shared<mpz_class>(v); };
  if (a->k == KPEq && neg) { if (iv.first && *iv.first == t) lo(t + 1); if (iv.second && *iv.second == t) hi(t - 1); }
  else if (a->k == KPEq) { lo(t); hi(t); } else if (neg) lo(t + 1); else hi(t);
  auto excluded = [&](const mpz_class &v) { return S.pcset.count(mkNot(aEq(body, aConst(mpq_class(v), SInt)))) > 0; };
  if (a->k == KPLe && !neg) for (int k = 0; k < 8 && iv.second && excluded(*iv.second); k++) hi(*iv.second - 1);
  if (a->k == KPLe && neg) for (int k = 0; k < 8 && iv.first && excluded(*iv.first); k++) lo(*iv.first + 1);
}
static bool known(State &S, E c, bool &v) {
  if (isTrue(c)) { v = true; return true; } if (isFalse(c)) { v = false; return true; }
  if (S.pcset.count(c)) { v = true; return true; } if (S.pcset.count(mkNot(c))) { v = false; return true; }
  if (c->k == KNot) { if (known(S, c->kids[0], v)) { v = !v; return true; } return false; }
  if (c->k == KAnd || c->k == KOr) { bool all = true, w; for (E k : c->kids) { if (known(S, k, w)) { if (w == (c->k == KOr)) { v = w; return true; } } else all = false; } if (all) { v = c->k == KAnd; return true; } return false; }
  if (c->k == KPLe || c->k == KPEq || c->k == KPLt) {
    E body; mpz_class t;
    if (splitAtom(c, body, t)) { auto it = S.bounds.find(body); if (it != S.bounds.end()) { auto &iv = it->second;
        if (c->k == KPLe) { if (iv.second && *iv.second <= t) { v = true; return true; } if (iv.first && *iv.first > t) { v = false; return true; } }
        else { if ((iv.second && *iv.second < t) || (iv.first && *iv.first > t)) { v = false; return true; } if (iv.first && iv.second && *iv.first == t && *iv.second == t) { v = true; return true; } } } }
    else if (c->kids[0]->s == SReal) {
      E m = c->kids[0]; auto is = [&](Kind k, bool val) { E a = mkAtom(k, m); return S.pcset.count(val ? a : mkNot(a)) > 0; };
      if (c->k == KPLt) { if (is(KPLe, false) || is(KPEq, true)) { v = false; return true; } if (is(KPLe, true) && is(KPEq, false)) { v = true; return true; } }
      else if (c->k == KPLe) { if (is(KPLt, true) || is(KPEq, true)) { v = true; return true; } if (is(KPLt, false) && is(KPEq, false)) { v = false; return true; } }
      else { if (is(KPLt, true) || is(KPLe, false)) { v = false; return true; } if (is(KPLe, true) && is(KPLt, false)) { v = true; return true; } } }
  }
  return false;
}
static void addPC(State &S, E c) {
  if (isTrue(c)) return;
  if (c->k == KAnd) { for (E k : c->kids) addPC(S, k); return; }
  if (c->k == KNot && c->kids[0]->k == KOr) { for (E k : c->kids[0]->kids) addPC(S, mkNot(k)); return; }
  if (S.pcset.count(c)) return; noteFact(S, c);
  S.pc.push_back(c);
  if (S.model) { Evaluator ev(*S.model); bool b; if (!ev.evalBool(c, b) || !b) S.model.reset(); }
}
static Res feasible(State &S, E c, bool getModel = true) { // pc & c
  std::vector<E> sl; slice(S.pc, c, sl); sl.push_back(c); Model m; bool ex;
  Res r = solve(sl, &m, &ex);
  return r;
}
static void ensureModel(State &S) { if (S.model) return; Model m; bool ex; if (solve(S.pc, &m, &ex) == SAT && ex) S.model = std::make_shared<Model>(m); }
static State *cloneState(State &S) {
  State *n = new State(S); n->id = nextState++; for (auto &g : n->groups) g->live++; st.forks++; st.states++; return n;
}
// decide a boolean; may fork (other side re-executes the current instruction)
static bool decide(State &S, E c) {
  bool v; if (known(S, c, v)) return v;
  int mv = -1; if (S.model) { Evaluator ev(*S.model); bool b; if (ev.evalBool(c, b)) { mv = b; sstats.modelHits++; } }
  bool canT, canF;
  if (cfg.lazy || S.lazy) { canT = canF = true; }
  else {
    std::shared_ptr<Model> mt, mf;
    auto q = [&](E x) { std::vector<E> sl; slice(S.pc, x, sl); sl.push_back(x); Model m; bool ex; Res r = solve(sl, &m, &ex); if (r == SAT && ex && S.model == nullptr && sl.size() == S.pc.size() + 1) S.model = std::make_shared<Model>(m); if (r == UNKNOWN) S.maybeInfeasible = true; return r != UNSAT; };
    if (mv == 1) { canT = true; canF = q(mkNot(c)); } else if (mv == 0) { canF = true; canT = q(c); }
    else { canT = q(c); canF = canT ? q(mkNot(c)) : true; }
  }
  if (canT && !canF) { noteFact(S, c); return true; }
  if (canF && !canT) { noteFact(S, mkNot(c)); return false; }
  if (getenv("VE_TRACE_FORK")) fprintf(stderr, "fork in %s: %s\n", S.fr.back().f->dem.c_str(), toStr(c, 5).c_str());
  State *o = cloneState(S); addPC(*o, mkNot(c)); work.push_back(o);
  addPC(S, c); return true;
}
static std::string where(State &S) {
  std::string s; for (int i = (int)S.fr.size() - 1; i >= 0 && i >= (int)S.fr.size() - 6; i--) { auto &f = S.fr[i]; const Instruction *I = f.f->ins[std::min<size_t>(f.pc, f.f->ins.size() - 1)].I; s += f.f->dem.substr(0, 120); if (auto &L = I->getDebugLoc()) { s += " @" + L->getFilename().str() + ":" + std::to_string(L.getLine()); const DILocation *dl = L.get(); while ((dl = dl->getInlinedAt())) s += "<-" + dl->getFilename().str() + ":" + std::to_string(dl->getLine()); } s += " | "; } return s;
}
static std::vector<std::pair<std::string, std::string>> inputVals(State &S, const Model &m) {
  std::vector<std::pair<std::string, std::string>> r; Evaluator ev(m);
  for (auto &i : S.inputs) { std::string val; if (!i.e) val = std::to_string((long long)i.c); else { mpq_class q = ev.eval(i.e); val = q.get_str(); } r.push_back({i.name + " " + std::to_string(i.idx) + " " + i.kind, val}); }
  return r;
}
static bool niceModel(std::vector<E> cs, State &S, Model &m) {
  // prefer models whose real inputs are small dyadic numbers (exact as double)
  static int cnt = 0;
  std::vector<std::pair<std::pair<int, int>, bool>> tries = {{{1, 16}, false}, {{4, 64}, false}, {{64, 4096}, false}};
  auto save = scfg; scfg.timeoutMs = 4000;
  bool any = false; for (auto &i : S.inputs) if (i.e && i.e->s == SReal) any = true;
  if (any) for (auto &t : tries) {
    std::vector<E> c2 = cs; for (auto &i : S.inputs) if (i.e && i.e->s == SReal) { E k = aVarBounded("nice" + std::to_string(cnt++), -t.first.second, t.first.second); c2.push_back(aEq(aScale(i.e, mpq_class(t.first.first)), k)); }
    bool ex; Model mm; if (solve(c2, &mm, &ex) == SAT && ex) { m = mm; scfg = save; return true; }
  }
  scfg = save; return false;
}
static void violation(State &S, const std::string &kind, const std::string &msg, E extra) {
  std::string key = kind + ":" + msg; st.violations++;
  if (violCount[key]++ >= cfg.maxViol) return;
  std::vector<E> cs = S.pc; if (extra) cs.push_back(extra); Model m; bool ex; Res r = solve(cs, &m, &ex, true);
  if (r == UNSAT) { violCount[key]--; st.violations--; return; }
  if (r == UNKNOWN) { violCount[key]--; st.violations--; st.unknown++; unknownAsserts[key]++; return; }
  Model nm; if (niceModel(cs, S, nm)) { m = nm; ex = true; }
  Violation v; v.key = key; v.msg = msg; v.kind = kind; v.exact = ex; v.inputs = inputVals(S, m); v.where = where(S); viols.push_back(v);
  if (cfg.verbose) { fprintf(stderr, "VIOL %s exact=%d\n  at %s\n", key.c_str(), ex, v.where.c_str()); for (auto &p : v.inputs) fprintf(stderr, "   %s = %s\n", p.first.c_str(), p.second.c_str()); }
}
[[noreturn]] static void memError(State &S, const std::string &m) { violation(S, "memory", m, nullptr); throw PathEnd{"memory error"}; }
// ---------------------------------------------------------------- objects
static uint64_t allocObj(State &S, uint64_t size, bool stack, const std::string &name, bool zero = false) {
  if (size >= (1ull << OFFB)) throw EngineError{"object too large: " + std::to_string(size)};
  uint32_t c = classOf(size, stack); auto &t = S.mem.tabW(c); uint32_t n = t.next++; if (n >= (1u << CNTB)) throw EngineError{"out of addresses"};
  OP *s = S.mem.slotW(c, n); auto o = std::make_shared<Object>(); o->size = size; o->d.assign(size, 0); o->st.assign(size, zero ? 0 : 2); o->kind = stack ? 1 : 2; o->name = name; *s = o; return mkAddr(c, n);
}
static void freeObj(State &S, uint64_t a) { OP *s = S.mem.slotW(keyClass(a), keyCnt(a)); s->reset(); }
static void splitCell(Object &o, uint32_t at) { // break the cell at 'at' into byte cells
  Cell c = o.sym[at]; o.sym.erase(at);
  E b = asBV(c.v, c.n * 8);
  for (uint32_t i = 0; i < c.n; i++) { E x = bvExtract(b, i * 8, 8); uint64_t k; if (bvIsConst(x, k)) { o.d[at + i] = k; o.st[at + i] = 0; } else { Cell n; n.v.t = VSym; n.v.e = x; n.n = 1; o.sym[at + i] = n; } }
}
static void clearRange(Object &o, uint32_t off, uint32_t n) {
  if (!o.sym.empty()) {
    auto it = o.sym.upper_bound(off + n - 1);
    std::vector<uint32_t> hit; while (it != o.sym.begin()) { --it; if (it->first + it->second.n > off) hit.push_back(it->first); if (it->first + 64 < off) break; }
    for (auto h : hit) { Cell c = o.sym[h]; if (h >= off && h + c.n <= off + n) o.sym.erase(h); else { 
        if (c.v.t == VReal) { o.sym.erase(h); for (uint32_t i = 0; i < c.n; i++) o.st[h + i] = 2; continue; }
        splitCell(o, h); for (uint32_t i = 0; i < c.n; i++) if (h + i >= off && h + i < off + n) o.sym.erase(h + i); } }
  }
}
static Val freshVal(State &S, const std::string &base, unsigned bits, bool fp) {
  std::string n = base + "#" + std::to_string(S.fresh[base]++) + "@" + std::to_string(S.id);
  Val v; if (fp && cfg.real) { v.t = VReal; v.e = aVar(n, SReal); return v; }
  v.t = VSym; v.e = bits == 1 ? mkBVar(n) : bvVar(n, bits); return v;
}
static Val loadRaw(State &S, Object *ow, const Object &o, uint32_t off, uint32_t n, bool fp, uint64_t addr) {
  bool allc = true; for (uint32_t i = 0; i < n; i++) if (o.st[off + i]) { allc = false; break; }
  if (allc && n <= 8) { uint64_t v = 0; memcpy(&v, &o.d[off], n); return conc(v); }
  auto it = o.sym.find(off); if (it != o.sym.end() && it->second.n == n) return it->second.v;
  Object *w = S.mem.getW(addr);
  bool allu = true; for (uint32_t i = 0; i < n; i++) if (w->st[off + i] != 2) { allu = false; break; }
  if (allu) { Val v = freshVal(S, "uninit", n * 8, fp); for (uint32_t i = 0; i < n; i++) w->st[off + i] = 1; w->sym[off] = Cell{v, n}; return v; }
  E r = nullptr;
  for (uint32_t i = 0; i < n; ) {
    E b; uint32_t adv = 1;
    if (w->st[off + i] == 0) b = bvConst(w->d[off + i], 8);
    else if (w->st[off + i] == 2) { Val v = freshVal(S, "uninit", 8, false); w->st[off + i] = 1; w->sym[off + i] = Cell{v, 1}; b = v.e; }
    else { auto c = w->sym.upper_bound(off + i); --c; uint32_t rel = off + i - c->first; uint32_t take = std::min(c->second.n - rel, n - i); b = bvExtract(asBV(c->second.v, c->second.n * 8), rel * 8, take * 8); adv = take; }
    r = r ? bvConcat(b, r) : b; i += adv;
  }
  return symI(r, n * 8);
}
static void storeRaw(Object &o, uint32_t off, uint32_t n, const Val &v) {
  clearRange(o, off, n);
  if (v.t == VConc && n <= 8) { memcpy(&o.d[off], &v.c, n); memset(&o.st[off], 0, n); return; }
  if (v.t == VUnset) { memset(&o.st[off], 2, n); return; }
  Val x = v; if (v.t == VConc) { x = Val(); x.t = VSym; x.e = bvConst(v.c, n * 8); }
  if (x.t == VSym && x.e->s == SBool) x = symI(bvIte(x.e, bvConst(1, n * 8), bvConst(0, n * 8)), n * 8);
  else if (x.t == VSym && x.e->s == SBV && x.e->w != n * 8) { x = symI(bvZExt(x.e, n * 8), n * 8); }
  if (x.t == VConc && n <= 8) { memcpy(&o.d[off], &x.c, n); memset(&o.st[off], 0, n); return; }
  memset(&o.st[off], 1, n); o.sym[off] = Cell{x, n};
}
// concretize an integer value by forking over feasible values
static uint64_t concretize(State &S, const Val &v, unsigned w) {
  if (v.t == VConc) return v.c;
  if (v.t != VSym) throw EngineError{"concretize"};
  ensureModel(S); if (!S.model) { if (S.lazy || S.maybeInfeasible) { Model m; bool ex; if (solve(S.pc, &m, &ex, true) == UNSAT) throw PathEnd{"infeasible"}; } throw EngineError{"concretize: no model"}; }
  Evaluator ev(*S.model); mpq_class q = ev.eval(v.e); if (!ev.ok) throw EngineError{"concretize eval"};
  E eq; uint64_t k; if (v.e->s == SInt) { eq = aEq(v.e, aConst(q, SInt)); mpz_class r, m = mpz_class(1) << w; mpz_class z = q.get_num(); mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), m.get_mpz_t()); k = mpz_get_ui(r.get_mpz_t()); }
  else if (v.e->s == SBool) { k = q != 0; eq = k ? v.e : mkNot(v.e); }
  else { k = mpz_get_ui(q.get_num_mpz_t()); eq = bvEq(v.e, bvConst(k, w)); }
  if (!decide(S, eq)) throw Forked{}; // only when model was stale
  return k;
}
struct Ref { uint64_t addr; uint32_t size; bool conc; uint32_t off; E symOff; bool intOff; std::vector<uint32_t> cand; };
// the constants an if-then-else tree of addresses can take
static bool ptrLeaves(E e, uint64_t add, std::set<uint64_t> &out) {
  if (out.size() > 64) return false;
  if (e->k == KBvConst && !e->big) { out.insert(e->a + add); return true; }
  if (e->k == KBvIte) return ptrLeaves(e->kids[1], add, out) && ptrLeaves(e->kids[2], add, out);
  if (e->k == KBvAdd && e->kids.size() == 2 && e->kids[1]->k == KBvConst && !e->kids[1]->big) return ptrLeaves(e->kids[0], add + e->kids[1]->a, out);
  return false;
}
// no model at hand (the solver gave up on the path condition): fork over the addresses the expression can take
static uint64_t forkLeaf(State &S, const Val &p) {
  std::set<uint64_t> lv; if (p.e->s != SBV || !ptrLeaves(p.e, 0, lv)) throw EngineError{"resolve: no model"};
  for (uint64_t v : lv) { E eq = bvEq(p.e, bvConst(v, 64)); bool k; if (known(S, eq, k)) { if (k) return v; continue; } if (decide(S, eq)) return v; }
  throw PathEnd{"infeasible"};
}
static Ref resolve(State &S, const Val &p0, uint32_t n, bool write) {
  Val p = p0; if (p.t == VSym) { ensureModel(S); if (!S.model) p = conc(forkLeaf(S, p)); }
  Ref R; R.symOff = nullptr; R.conc = true;
  uint64_t a;
  if (p.t == VConc) a = p.c;
  else if (p.t == VSym) {
    Evaluator ev(*S.model); mpq_class q = ev.eval(p.e); if (!ev.ok) throw EngineError{"resolve eval"}; a = mpz_get_ui(q.get_num_mpz_t());
  } else throw EngineError{"pointer value"};
  const Object *o = S.mem.get(a); uint32_t off = a & ((1u << OFFB) - 1);
  if (!o) { if (p.t == VSym) { E eq = p.e->s == SInt ? aEq(p.e, asInt(conc(a), 64)) : bvEq(p.e, bvConst(a, 64)); addPC(S, eq); } memError(S, a < (1ull << OFFB) ? "null pointer access" : "access to freed or invalid memory"); }
  uint64_t base = a - off;
  if (p.t == VConc) { if ((uint64_t)off + n > o->size) memError(S, "out-of-bounds access"); if (write && o->ro) memError(S, "write to constant"); R.addr = base; R.size = o->size; R.off = off; return R; }
  if (o->size < n) memError(S, "out-of-bounds access");
  E inb; E offE; bool isI = p.e->s == SInt;
  if (isI) { offE = aSub(p.e, asInt(conc(base), 64)); inb = mkAnd(aLe(aConst(0, SInt), offE), aLe(offE, aConst(mpq_class(o->size - n), SInt))); }
  else { offE = bvSub(p.e, bvConst(base, 64)); inb = bvCmp(KBvUle, offE, bvConst(o->size - n, 64)); }
  if (!decide(S, inb)) { // this path is outside this object: the model must be refreshed
    S.model.reset(); ensureModel(S); if (!S.model) throw EngineError{"resolve: no model"}; Evaluator ev(*S.model); mpq_class q = ev.eval(p.e); uint64_t a2 = mpz_get_ui(q.get_num_mpz_t()); const Object *o2 = S.mem.get(a2); uint32_t off2 = a2 & ((1u << OFFB) - 1);
    if (!o2 || (uint64_t)off2 + n > o2->size) { addPC(S, isI ? aEq(p.e, asInt(conc(a2), 64)) : bvEq(p.e, bvConst(a2, 64))); memError(S, "out-of-bounds access"); }
    throw Forked{};
  }
  // candidate offsets
  R.addr = base; R.size = o->size; R.conc = false; R.symOff = offE; R.intOff = isI;
  uint64_t stride = 1, c0 = 0;
  if (isI) { // gcd of coefficients
    mpz_class g = 0, c = 0; bool simple = true;
    if (offE->k == KASum) { for (size_t i = 0; i < offE->kids.size(); i++) { if (offE->coef[i].get_den() != 1) simple = false; if (offE->kids[i]->k == KAMono && offE->kids[i]->kids.empty()) c = offE->coef[i].get_num(); else { mpz_class z = offE->coef[i].get_num(); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), z.get_mpz_t()); } } }
    else simple = false;
    if (simple && g != 0) { stride = mpz_get_ui(g.get_mpz_t()); mpz_class r; mpz_fdiv_r(r.get_mpz_t(), c.get_mpz_t(), g.get_mpz_t()); c0 = mpz_get_ui(r.get_mpz_t()); }
  } else { E x = offE; uint64_t cc = 0; if (x->k == KBvAdd && x->kids[1]->k == KBvConst) { cc = x->kids[1]->a; x = x->kids[0]; } unsigned tz = 0;
    std::function<unsigned(E)> tzf = [&](E y) -> unsigned { if (y->k == KConcat && y->kids[1]->k == KBvConst) { uint64_t v = y->kids[1]->a; return v ? __builtin_ctzll(v) : y->kids[1]->w; } if (y->k == KBvMul && y->kids[1]->k == KBvConst && !y->kids[1]->big) return y->kids[1]->a ? __builtin_ctzll(y->kids[1]->a) : 64; if (y->k == KBvAdd) return std::min(tzf(y->kids[0]), tzf(y->kids[1])); if (y->k == KZExt || y->k == KSExt) return tzf(y->kids[0]); if (y->k == KBvIte) return std::min(tzf(y->kids[1]), tzf(y->kids[2])); if (y->k == KBvConst) return y->a ? __builtin_ctzll(y->a) : 64; return 0; };
    tz = std::min(tzf(x), 6u); stride = 1ull << tz; c0 = cc % stride; }
  std::set<uint64_t> lv; if (!isI && ptrLeaves(p.e, 0, lv)) { for (auto v : lv) if (v >= base && v - base + n <= o->size) R.cand.push_back(v - base); } else
  for (uint64_t k = c0; k + n <= o->size; k += stride) R.cand.push_back(k);
  // restrict by interval
  if (isI && offE->bounded) { std::vector<uint32_t> c2; for (auto k : R.cand) if (mpz_class(k) >= offE->lo && mpz_class(k) <= offE->hi) c2.push_back(k); R.cand = c2; }
  if (R.cand.size() > 4) { // drop infeasible ones when cheap (skip if many)
    if (R.cand.size() <= 64) { std::vector<uint32_t> c2; for (auto k : R.cand) { E eq = isI ? aEq(offE, aConst(k, SInt)) : bvEq(offE, bvConst(k, 64)); bool v; if (known(S, eq, v)) { if (v) c2.push_back(k); continue; } if (S.model) { Evaluator ev(*S.model); bool b; if (ev.evalBool(eq, b) && b) { c2.push_back(k); continue; } } if (feasible(S, eq) != UNSAT) c2.push_back(k); } R.cand = c2; }
  }
  if (R.cand.size() == 1) { R.conc = true; R.off = R.cand[0]; return R; }
  if (R.cand.size() > cfg.maxResolve) { uint64_t v = concretize(S, p, 64); R.conc = true; R.off = v - base; }
  return R;
}
static E offEq(const Ref &R, uint32_t k) { return R.intOff ? aEq(R.symOff, aConst(k, SInt)) : bvEq(R.symOff, bvConst(k, 64)); }
static Val loadScalar(State &S, const Val &p, uint32_t n, bool fp, unsigned w) {
  Ref R = resolve(S, p, n, false);
  Val v;
  if (R.conc) v = loadRaw(S, nullptr, *S.mem.get(R.addr), R.off, n, fp, R.addr);
  else { bool first = true; for (auto k : R.cand) { Val x = loadRaw(S, nullptr, *S.mem.get(R.addr), k, n, fp, R.addr); if (first) { v = x; first = false; } else { Val r; if (!mergeVal(offEq(R, k), x, v, n * 8, r)) { uint64_t a = concretize(S, p, 64); return loadScalar(S, conc(a), n, fp, w); } v = r; } } if (first) throw EngineError{"no candidate"}; }
  if (fp && cfg.real && v.t == VSym) { v = realV(asReal(v, w), w); }
  if (!fp && v.t == VSym && v.e->s == SBV && v.e->w != w && w <= 64) { if (w == 1) v = symI(asBool(v), 1); else v = symI(bvExtract(v.e, 0, w), w); }
  if (v.t == VConc && w < 64) v.c &= maskw(w);
  return v;
}
static void storeScalar(State &S, const Val &p, uint32_t n, const Val &v, unsigned w) {
  Ref R = resolve(S, p, n, true);
  if (R.conc) { Object *o = S.mem.getW(R.addr); if (o->ro) memError(S, "write to constant"); storeRaw(*o, R.off, n, v); return; }
  Object *o = S.mem.getW(R.addr); std::vector<Val> nv;
  for (auto k : R.cand) { bool un = true; for (uint32_t i = 0; i < n; i++) if (o->st[k + i] != 2) un = false; if (un) { Val f = freshVal(S, "uninit", n * 8, v.t == VReal); for (uint32_t i = 0; i < n; i++) o->st[k + i] = 1; o->sym[k] = Cell{f, n}; }
    Val old = loadRaw(S, o, *o, k, n, v.t == VReal, R.addr); Val r; if (!mergeVal(offEq(R, k), v, old, n * 8, r)) { uint64_t a = concretize(S, p, 64); storeScalar(S, conc(a), n, v, w); return; } nv.push_back(r); o = S.mem.getW(R.addr); }
  // overlapping candidates (stride < n) are not supported precisely
  for (size_t i = 0; i + 1 < R.cand.size(); i++) if (R.cand[i + 1] - R.cand[i] < n) { uint64_t a = concretize(S, p, 64); storeScalar(S, conc(a), n, v, w); return; }
  o = S.mem.getW(R.addr); for (size_t i = 0; i < R.cand.size(); i++) storeRaw(*o, R.cand[i], n, nv[i]);
}
static unsigned typeBits(Type *t) { if (t->isPointerTy()) return 64; return t->getPrimitiveSizeInBits(); }
static bool isFPTy(Type *t) { return t->isFloatTy() || t->isDoubleTy(); }
// 0 <= R < y, where y is a product of positive factors on this path: y = m*n, R = q*m + R0 with 0<=q<n, 0<=R0<m suffices
static bool withinProduct(State &S, E R, E y, int depth = 0) {
  E ok = mkAnd(aLe(aConst(0, SInt), R), aLt(R, y)); bool v; if (known(S, ok, v)) return v;
  if (depth < 4 && y->k == KAMono && polySize(R) > 1) for (E n : y->kids) {
    E m, r; if (!polyDivSplit(y, n, m, r)) continue; mpq_class z; if (!aIsConst(r, z) || z != 0) continue;
    E q, R0; if (!polyDivSplit(R, m, q, R0) || (aIsConst(q, z) && z == 0) || R0 == R) continue;
    E qn = mkAnd(aLe(aConst(0, SInt), q), aLt(q, n)); if (!known(S, qn, v)) v = feasible(S, mkNot(qn), false) == UNSAT;
    if (v && withinProduct(S, R0, m, depth + 1)) return true;
  }
  return feasible(S, mkNot(ok), false) == UNSAT;
}
// floor division with a positive divisor: when x = Q*y + R with 0 <= R < y on this path the quotient is Q
static void divMod(State &S, E x, E y, E &q, E &r) {
  E Q, R; mpq_class c, d;
  if (!(aIsConst(x, c) && aIsConst(y, d)) && polyDivSplit(x, y, Q, R)) {
    mpz_class lo, hi, yl, yh; E ok = mkAnd(aLe(aConst(0, SInt), R), aLt(R, y));
    if (isTrue(ok) || (intInterval(R, lo, hi) && intInterval(y, yl, yh) && lo >= 0 && hi < yl)) { q = Q; r = R; return; }
    if (!aIsConst(y, c)) { if (withinProduct(S, R, y)) { q = Q; r = R; return; } }
    else if (!(aIsConst(Q, d) && d == 0)) { q = aAdd(Q, iDiv(R, y)); r = iMod(R, y); return; }
  }
  if (getenv("VE_TRACE_DIV")) fprintf(stderr, "unresolved div %s / %s\n", toStr(x, 5).c_str(), toStr(y, 5).c_str());
  q = iDiv(x, y); r = iMod(x, y);
}
static Val ptrAdd(const Val &p, int64_t k);
static Val loadType(State &S, const Val &p, Type *t) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(s); Agg g; for (unsigned i = 0; i < s->getNumElements(); i++) g.push_back(loadType(S, ptrAdd(p, L->getElementOffset(i)), s->getElementType(i))); return aggv(g); }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); Agg g; for (unsigned i = 0; i < a->getNumElements(); i++) g.push_back(loadType(S, ptrAdd(p, i * es), a->getElementType())); return aggv(g); }
  if (auto *a = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(a->getElementType()); Agg g; for (unsigned i = 0; i < a->getNumElements(); i++) g.push_back(loadType(S, ptrAdd(p, i * es), a->getElementType())); return aggv(g); }
  if (t->isX86_FP80Ty()) throw EngineError{"long double"};
  return loadScalar(S, p, DL->getTypeStoreSize(t), isFPTy(t), typeBits(t));
}
static void storeType(State &S, const Val &p, const Val &v, Type *t) {
  if (v.t == VUnset && !t->isSingleValueType()) return;
  if (auto *s = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) storeType(S, ptrAdd(p, L->getElementOffset(i)), (*v.g)[i], s->getElementType(i)); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) storeType(S, ptrAdd(p, i * es), (*v.g)[i], a->getElementType()); return; }
  if (auto *a = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) storeType(S, ptrAdd(p, i * es), (*v.g)[i], a->getElementType()); return; }
  if (t->isX86_FP80Ty()) throw EngineError{"long double"};
  storeScalar(S, p, DL->getTypeStoreSize(t), v, typeBits(t));
}
// ---------------------------------------------------------------- integer arithmetic
static Val intBin(State &S, unsigned op, const Val &a, const Val &b, unsigned w);
static Val ptrAdd(const Val &p, int64_t k) { if (k == 0) return p; if (p.t == VConc) return conc(p.c + k); if (isIntSort(p)) return symI(wrapI(aAdd(p.e, aConst(mpq_class(mpz_class((long)k)), SInt)), 64), 64); return symI(bvAdd(asBV(p, 64), bvConst((uint64_t)k, 64)), 64); }
static Val intBin(State &S, unsigned op, const Val &a, const Val &b, unsigned w) {
  if (a.t == VConc && b.t == VConc && w <= 64) {
    uint64_t x = a.c & maskw(w), y = b.c & maskw(w), r = 0; int64_t sa = sx(x, w), sb = sx(y, w);
    switch (op) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
    case Instruction::UDiv: if (!y) memError(S, "division by zero"); r = x / y; break; case Instruction::URem: if (!y) memError(S, "division by zero"); r = x % y; break;
    case Instruction::SDiv: if (!sb) memError(S, "division by zero"); r = (sb == -1) ? (uint64_t)(0 - (uint64_t)sa) : (uint64_t)(sa / sb); break;
    case Instruction::SRem: if (!sb) memError(S, "division by zero"); r = (sb == -1) ? 0 : (uint64_t)(sa % sb); break;
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = y >= w ? (sa < 0 ? ~0ull : 0) : (uint64_t)(sa >> y); break;
    default: throw EngineError{"intBin"};
    }
    return conc(r & maskw(w));
  }
  if (w == 1) { E x = asBool(a), y = asBool(b); switch (op) { case Instruction::And: case Instruction::Mul: return symI(mkAnd(x, y), 1); case Instruction::Or: return symI(mkOr(x, y), 1); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return symI(mkNot(mkIff(x, y)), 1); default: throw EngineError{"i1 op"}; } }
  bool I = isIntSort(a) || isIntSort(b);
  if (I) {
    E x, y;
    switch (op) {
    case Instruction::Add: return symI(wrapI(aAdd(asInt(a, w), asInt(b, w)), w), w);
    case Instruction::Sub: return symI(wrapI(modNormalize(aSub(asInt(a, w), asInt(b, w))), w), w);
    case Instruction::Mul: return symI(wrapI(aMul(asInt(a, w), asInt(b, w)), w), w);
    case Instruction::Shl: if (b.t == VConc) { if (b.c >= w) return conc(0); return symI(wrapI(aScale(asInt(a, w), mpq_class(mpz_class(1) << b.c)), w), w); } break;
    case Instruction::LShr: if (b.t == VConc) { if (b.c >= w) return conc(0); return symI(wrapU(iDiv(asUInt(a, w), aConst(mpq_class(mpz_class(1) << b.c), SInt)), w), w); } break;
    case Instruction::AShr: if (b.t == VConc) { unsigned s = std::min<uint64_t>(b.c, w - 1); return symI(iDiv(asInt(a, w), aConst(mpq_class(mpz_class(1) << s), SInt)), w); } break;
    case Instruction::And: { const Val *v = &a, *m = &b; if (v->t == VConc) std::swap(v, m); if (m->t == VConc) { uint64_t k = m->c & maskw(w); if (k == 0) return conc(0); if (k == maskw(w)) return *v; if ((k & (k + 1)) == 0) return symI(wrapU(iMod(asInt(*v, w), aConst(mpq_class(mpz_class((unsigned long)k) + 1), SInt)), w), w);
        uint64_t nk = ~k & maskw(w); if ((nk & (nk + 1)) == 0) { E e = asInt(*v, w); return symI(aSub(e, iMod(e, aConst(mpq_class(mpz_class((unsigned long)nk) + 1), SInt))), w); } } break; }
    case Instruction::Or: { // disjoint or == add
        const Val *v = &a, *m = &b; if (v->t == VConc) std::swap(v, m); if (m->t == VConc && m->c == 0) return *v; break; }
    case Instruction::Xor: { const Val *v = &a, *m = &b; if (v->t == VConc) std::swap(v, m); if (m->t == VConc && (m->c & maskw(w)) == maskw(w)) return symI(aSub(aConst(-1, SInt), asInt(*v, w)), w); break; }
    case Instruction::UDiv: case Instruction::URem:
      x = asUInt(a, w); y = asUInt(b, w); if (decide(S, aEq(y, aConst(0, SInt)))) memError(S, "division by zero");
      { E q, r; divMod(S, x, y, q, r); return symI(wrapU(op == Instruction::UDiv ? q : r, w), w); }
    case Instruction::SDiv: case Instruction::SRem: {
      x = asInt(a, w); y = asInt(b, w); if (decide(S, aEq(y, aConst(0, SInt)))) memError(S, "division by zero");
      mpz_class lo, hi; bool yp = intInterval(y, lo, hi) && lo >= 0; if (!yp) yp = decide(S, aLt(aConst(0, SInt), y)); E ya = yp ? y : aNeg(y);
      bool xp = intInterval(x, lo, hi) && lo >= 0; E z = aConst(0, SInt);
      if (xp) { E q, r; divMod(S, x, ya, q, r); return symI(wrapI(op == Instruction::SDiv ? (yp ? q : aNeg(q)) : r, w), w); }
      E neg = aLt(x, z), nx = aNeg(x);
      if (op == Instruction::SDiv) { E q = aIte(neg, aNeg(iDiv(nx, ya)), iDiv(x, ya)); return symI(wrapI(yp ? q : aNeg(q), w), w); }
      return symI(wrapI(aIte(neg, aNeg(iMod(nx, ya)), iMod(x, ya)), w), w); }
    }
  }
  E x = asBV(a, w), y = asBV(b, w);
  switch (op) {
  case Instruction::Add: return symI(bvAdd(x, y), w); case Instruction::Sub: return symI(bvSub(x, y), w); case Instruction::Mul: return symI(bvBin(KBvMul, x, y), w);
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
    if (decide(S, bvEq(y, bvConst(0, w)))) memError(S, "division by zero");
    return symI(bvBin(op == Instruction::UDiv ? KBvUdiv : op == Instruction::URem ? KBvUrem : op == Instruction::SDiv ? KBvSdiv : KBvSrem, x, y), w);
  case Instruction::And: return symI(bvBin(KBvAnd, x, y), w); case Instruction::Or: return symI(bvBin(KBvOr, x, y), w); case Instruction::Xor: return symI(bvBin(KBvXor, x, y), w);
  case Instruction::Shl: return symI(bvBin(KBvShl, x, y), w); case Instruction::LShr: return symI(bvBin(KBvLshr, x, y), w); case Instruction::AShr: return symI(bvBin(KBvAshr, x, y), w);
  }
  throw EngineError{"intBin op"};
}
static Val icmp(State &S, unsigned p, const Val &a, const Val &b, unsigned w) {
  if (a.t == VConc && b.t == VConc && w <= 64) { uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sa = sx(x, w), sb = sx(y, w); bool r;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; case CmpInst::ICMP_SLT: r = sa < sb; break; default: r = sa <= sb; break; } return conc(r); }
  if (w == 1) { E x = asBool(a), y = asBool(b); switch (p) { case CmpInst::ICMP_EQ: return symI(mkIff(x, y), 1); case CmpInst::ICMP_NE: return symI(mkNot(mkIff(x, y)), 1); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return symI(mkAnd(x, mkNot(y)), 1); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return symI(mkAnd(mkNot(x), y), 1); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SLE: return symI(mkOr(x, mkNot(y)), 1); default: return symI(mkOr(mkNot(x), y), 1); } }
  if (isIntSort(a) || isIntSort(b)) {
    bool uns = p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE;
    E x = uns ? asUInt(a, w) : asInt(a, w), y = uns ? asUInt(b, w) : asInt(b, w); E r;
    switch (p) { case CmpInst::ICMP_EQ: r = aEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(aEq(x, y)); break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = aLt(y, x); break; case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: r = aLe(y, x); break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = aLt(x, y); break; default: r = aLe(x, y); }
    return symI(r, 1);
  }
  if (a.t == VReal || b.t == VReal) { // equality of raw bits of reals (memcmp style): value equality
    if (p == CmpInst::ICMP_EQ) return symI(aEq(asReal(a, w), asReal(b, w)), 1); if (p == CmpInst::ICMP_NE) return symI(mkNot(aEq(asReal(a, w), asReal(b, w))), 1); throw EngineError{"icmp on real"}; }
  E x = asBV(a, w), y = asBV(b, w); E r;
  switch (p) { case CmpInst::ICMP_EQ: r = bvEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(bvEq(x, y)); break; case CmpInst::ICMP_UGT: r = bvCmp(KBvUlt, y, x); break; case CmpInst::ICMP_UGE: r = bvCmp(KBvUle, y, x); break; case CmpInst::ICMP_ULT: r = bvCmp(KBvUlt, x, y); break; case CmpInst::ICMP_ULE: r = bvCmp(KBvUle, x, y); break; case CmpInst::ICMP_SGT: r = bvCmp(KBvSlt, y, x); break; case CmpInst::ICMP_SGE: r = bvCmp(KBvSle, y, x); break; case CmpInst::ICMP_SLT: r = bvCmp(KBvSlt, x, y); break; default: r = bvCmp(KBvSle, x, y); }
  return symI(r, 1);
}
// ---------------------------------------------------------------- floating point
static int signOf(State &S, E x) { if (decide(S, aLt(x, aConst(0, SReal)))) return -1; if (decide(S, aEq(x, aConst(0, SReal)))) return 0; return 1; }
static Val fbin(State &S, unsigned op, const Val &a, const Val &b, unsigned w) {
  if (a.t == VConc && b.t == VConc) {
    double x = fpOf(a.c, w), y = fpOf(b.c, w); double r; 
    if (w == 32) { float fx = x, fy = y; r = op == Instruction::FAdd ? fx + fy : op == Instruction::FSub ? fx - fy : op == Instruction::FMul ? fx * fy : op == Instruction::FDiv ? fx / fy : fmodf(fx, fy); }
    else r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmod(x, y);
    if (!cfg.real || !std::isfinite(x) || !std::isfinite(y) || op == Instruction::FRem || (op == Instruction::FDiv && y == 0)) return conc(toBits(r, w));
    mpq_class q;
    if (std::isfinite(r)) { // exactness test without big arithmetic for the common case
      if (op == Instruction::FAdd || op == Instruction::FSub) { double yy = op == Instruction::FAdd ? y : -y; double bb = r - x, e = (x - (r - bb)) + (yy - bb); if (w == 64 && e == 0) return conc(toBits(r, w)); }
      else if (op == Instruction::FMul && w == 64 && (r == 0 ? (x == 0 || y == 0) : (std::fabs(r) > 1e-290 && std::fma(x, y, -r) == 0))) return conc(toBits(r, w)); }
    mpq_class qx(x), qy(y);
    q = op == Instruction::FAdd ? mpq_class(qx + qy) : op == Instruction::FSub ? mpq_class(qx - qy) : op == Instruction::FMul ? mpq_class(qx * qy) : mpq_class(qx / qy);
    if (q == 0 && r == 0) return conc(toBits(r, w));
    return realV(aConst(q, SReal), w);
  }
  if (!cfg.real) { unsigned o = op == Instruction::FAdd ? FpAdd : op == Instruction::FSub ? FpSub : op == Instruction::FMul ? FpMul : op == Instruction::FDiv ? FpDiv : FpRem; if (op == Instruction::FRem) throw EngineError{"frem"}; return symI(fpOp(o, {asBV(a, w), asBV(b, w)}, w), w); }
  if (isSpecial(a, w) || isSpecial(b, w)) {
    double x = isSpecial(a, w) ? fpOf(a.c, w) : 0, y = isSpecial(b, w) ? fpOf(b.c, w) : 0; if (std::isnan(x) || std::isnan(y)) return conc(toBits(NAN, w));
    bool sa = isSpecial(a, w); E o = sa ? asReal(b, w) : asReal(a, w);
    switch (op) { case Instruction::FAdd: return sa ? a : b; case Instruction::FSub: return sa ? a : conc(toBits(-y, w)); case Instruction::FMul: { int s = signOf(S, o); double inf = sa ? x : y; return conc(toBits(s == 0 ? NAN : s * inf, w)); }
    case Instruction::FDiv: if (!sa) return conc(toBits(0.0, w)); { int s = signOf(S, o); return conc(toBits(s < 0 ? -x : x, w)); } default: throw EngineError{"frem special"}; }
  }
  E x = asReal(a, w), y = asReal(b, w);
  switch (op) {
  case Instruction::FAdd: return realV(aAdd(x, y), w); case Instruction::FSub: return realV(aSub(x, y), w); case Instruction::FMul: return realV(aMul(x, y), w);
  case Instruction::FDiv: { mpq_class q; if (aIsConst(y, q) && q != 0) return realV(aScale(x, 1 / q), w);
      if (decide(S, aEq(y, aConst(0, SReal)))) { int s = signOf(S, x); return conc(toBits(s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY, w)); }
      return realV(aDiv(x, y), w); }
  default: { if (decide(S, aEq(y, aConst(0, SReal)))) return conc(toBits(NAN, w)); // fmod: x - y*trunc(x/y)
      E q = aDiv(x, y); bool neg = decide(S, aLt(q, aConst(0, SReal))); E t = neg ? aNeg(aFloor(aNeg(q), 0)) : aFloor(q, 0); return realV(aSub(x, aMul(y, t)), w); }
  }
}
static Val fcmp(State &S, unsigned p, const Val &a, const Val &b, unsigned w) {
  if (a.t == VConc && b.t == VConc) { double x = fpOf(a.c, w), y = fpOf(b.c, w); bool v = false; if (std::isnan(x) || std::isnan(y)) v = p & 8; else { if ((p & 1) && x == y) v = true; if ((p & 2) && x > y) v = true; if ((p & 4) && x < y) v = true; } return conc(v); }
  if (!cfg.real) return symI(fpCmp(p, asBV(a, w), asBV(b, w)), 1);
  if (isSpecial(a, w) || isSpecial(b, w)) { double x = isSpecial(a, w) ? fpOf(a.c, w) : 0, y = isSpecial(b, w) ? fpOf(b.c, w) : 0; bool v = false; if (std::isnan(x) || std::isnan(y)) v = p & 8; else { if ((p & 2) && x > y) v = true; if ((p & 4) && x < y) v = true; } return conc(v); }
  if ((p & 7) == 7) return conc(1); if ((p & 7) == 0) return conc(0);
  E x = asReal(a, w), y = asReal(b, w); E r;
  switch (p & 7) { case 1: r = aEq(x, y); break; case 2: r = aLt(y, x); break; case 3: r = aLe(y, x); break; case 4: r = aLt(x, y); break; case 5: r = aLe(x, y); break; default: r = mkNot(aEq(x, y)); }
  return symI(r, 1);
}
static Val fabsV(const Val &a, unsigned w) { if (a.t == VConc) return conc(a.c & (w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull)); if (!cfg.real) return symI(fpOp(FpAbs, {asBV(a, w)}, w), w); E x = asReal(a, w); return realV(aIte(aLt(x, aConst(0, SReal)), aNeg(x), x), w); }
static Val fnegV(const Val &a, unsigned w) { if (a.t == VConc) return conc(a.c ^ (w == 32 ? 0x80000000ull : 0x8000000000000000ull)); if (!cfg.real) return symI(fpOp(FpNeg, {asBV(a, w)}, w), w); return realV(aNeg(asReal(a, w)), w); }
static Val sqrtV(State &S, const Val &a, unsigned w) {
  if (a.t == VConc) { double x = fpOf(a.c, w), r = sqrt(x); if (!cfg.real || !(x > 0) || !std::isfinite(x) || mpq_class(r) * mpq_class(r) == mpq_class(x)) return conc(toBits(r, w)); }
  if (!cfg.real) return symI(fpOp(FpSqrt, {asBV(a, w)}, w), w);
  E x = asReal(a, w); if (decide(S, aLt(x, aConst(0, SReal)))) return conc(toBits(NAN, w));
  if (x->k == KAConst) { mpz_class n = x->coef[0].get_num(), d = x->coef[0].get_den(); if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) return realV(aConst(mpq_class(mpz_class(sqrt(n)), mpz_class(sqrt(d))), SReal), w); }
  if (x->k == KAMono && x->kids.size() == 1 && x->exps[0] == 2) { E k = x->kids[0]; return fabsV(realV(k, w), w); }
  E s = aVar("sqrt!" + std::to_string(x->id), SReal); addPC(S, aLe(aConst(0, SReal), s)); addPC(S, aEq(aMul(s, s), x)); assumptions.insert("sqrt is the exact real square root"); return realV(s, w);
}
static Val cbrtV(State &S, const Val &a, unsigned w) {
  if (a.t == VConc) { double x = fpOf(a.c, w), r = cbrt(x); if (!cfg.real || mpq_class(r) * mpq_class(r) * mpq_class(r) == mpq_class(x)) return conc(toBits(r, w)); }
  E x = asReal(a, w); E s = aVar("cbrt!" + std::to_string(x->id), SReal); addPC(S, aEq(aMul(aMul(s, s), s), x)); return realV(s, w);
}
static E truncR(State &S, E x, unsigned bits) { mpz_class lo, hi; if (x->s == SInt) return x; bool neg = decide(S, aLt(x, aConst(0, SReal))); return neg ? aNeg(aFloor(aNeg(x), bits)) : aFloor(x, bits); }
static Val fptoi(State &S, const Val &a, unsigned fw, unsigned iw, bool sgnd) {
  if (a.t == VConc) { double x = fpOf(a.c, fw); if (sgnd) { double lim = std::ldexp(1.0, iw - 1); if (!(x > -lim - 1 && x < lim)) return conc(1ull << (iw - 1)); return conc((uint64_t)(int64_t)x & maskw(iw)); } if (!(x > -1 && x < std::ldexp(1.0, iw))) { if (x < 0 && x > -9.2e18) return conc((uint64_t)(int64_t)x & maskw(iw)); return conc(0); } return conc((uint64_t)x & maskw(iw)); }
  if (!cfg.real) return symI(fpOp(sgnd ? FpToS : FpToU, {asBV(a, fw)}, iw), iw);
  E x = asReal(a, fw); E lim = aConst(mpq_class(mpz_class(1) << (iw - 1)), SReal);
  if (x->s == SInt && x->bounded) { mpz_class H = mpz_class(1) << (iw - 1); if (x->lo >= -H && x->hi < H) return symI(x, iw); }
  // out of range: x86 "integer indefinite"
  E in = mkAnd(aLt(aNeg(lim), x), aLt(x, lim));
  if (!decide(S, in)) { assumptions.insert("out-of-range float-to-int conversion yields the x86 indefinite value"); return conc(sgnd ? 1ull << (iw - 1) : 0); }
  return symI(truncR(S, x, iw + 1), iw);
}
static Val itofp(const Val &a, unsigned iw, unsigned fw, bool sgnd) {
  if (a.t == VConc) { if (cfg.real && fw == 64) { if (iw <= 32 || (sgnd && sx(a.c, iw) < (1ll << 52) && sx(a.c, iw) > -(1ll << 52))) return conc(bOf(sgnd ? (double)sx(a.c, iw) : (double)(a.c & maskw(iw)))); mpz_class z = sgnd ? mpz_class((long)sx(a.c, iw)) : mpz_class((unsigned long)(a.c & maskw(iw))); return realV(aConst(mpq_class(z), SReal), fw); } double d = sgnd ? (double)sx(a.c, iw) : (double)(a.c & maskw(iw)); if (fw == 32) return conc(bOff(sgnd ? (float)sx(a.c, iw) : (float)(a.c & maskw(iw)))); return conc(bOf(d)); }
  if (!cfg.real) { E b = asBV(a, iw); return symI(fpOp(sgnd ? FpFromS : FpFromU, {b}, fw), fw); }
  return realV(sgnd ? asInt(a, iw) : asUInt(a, iw), fw);
}
#include "exec2.inc"
}
int main(int argc, char **argv) { int r = ve::run(argc, argv); fflush(stdout); fflush(stderr); _exit(r); }
