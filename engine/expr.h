// Hash-consed expressions with simplification.  Sorts: Bool, BV(w), Int, Real.
// Int and Real arithmetic is kept as canonical polynomials (sum of monomials).
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <functional>

namespace ve {

enum Sort : uint8_t { SBool, SBV, SInt, SReal };
enum Kind : uint8_t {
  // Bool
  KTrue, KFalse, KBVar, KNot, KAnd, KOr, KBIte, KIff,
  KBvEq, KBvUlt, KBvUle, KBvSlt, KBvSle,
  KPLt, KPLe, KPEq,            // poly < 0, <= 0, == 0  (kid0 canonical)
  KFpCmp,                      // IEEE compare: a = LLVM predicate, kids BV; w of kids
  // BV
  KBvConst, KBvVar, KBvAdd, KBvMul, KBvUdiv, KBvSdiv, KBvUrem, KBvSrem,
  KBvAnd, KBvOr, KBvXor, KBvShl, KBvLshr, KBvAshr, KConcat, KExtract, KZExt, KSExt, KBvIte,
  KIntToBv,                    // Int -> BV(w)
  KFpOp,                       // IEEE arithmetic on bit patterns: a = op code
  // arithmetic
  KAConst, KAVar, KAMono, KASum, KAIte, KADiv, KIDiv, KIMod, KFloor, KBvToInt, KToReal, KUF
};
enum FpOpCode { FpAdd, FpSub, FpMul, FpDiv, FpRem, FpNeg, FpSqrt, FpAbs, FpCvt /*to width w*/, FpFromS, FpFromU, FpToS, FpToU, FpFloor, FpCeil, FpTrunc, FpMin, FpMax };

struct Expr {
  Kind k; Sort s; uint16_t w = 0;
  uint32_t id = 0;
  uint64_t a = 0, b = 0;              // params (extract lo, const value, exponents ...)
  std::vector<const Expr*> kids;
  std::vector<mpq_class> coef;        // KASum: coefficient per kid ; KAConst: coef[0]
  std::vector<uint32_t> exps;         // KAMono
  mpz_class *big = nullptr;           // wide BV const
  std::string *name = nullptr;
  bool bounded = false; mpz_class lo, hi;   // Int interval
  uint64_t hash = 0;
  mutable uint32_t mark = 0;
};
typedef const Expr *E;

E mkTrue(); E mkFalse(); inline E mkBool(bool b) { return b ? mkTrue() : mkFalse(); }
inline bool isTrue(E e) { return e->k == KTrue; }
inline bool isFalse(E e) { return e->k == KFalse; }
E mkBVar(const std::string &n);
E mkNot(E a); E mkAnd(E a, E b); E mkOr(E a, E b); E mkBIte(E c, E a, E b); E mkIff(E a, E b);
inline E mkImplies(E a, E b) { return mkOr(mkNot(a), b); }

E bvConst(uint64_t v, unsigned w); E bvConstBig(const mpz_class &v, unsigned w);
E bvVar(const std::string &n, unsigned w);
E bvBin(Kind k, E a, E b);
inline E bvAdd(E a, E b) { return bvBin(KBvAdd, a, b); }
E bvSub(E a, E b); E bvNeg(E a); E bvNot(E a);
E bvConcat(E hi, E lo); E bvExtract(E a, unsigned lo, unsigned w); E bvZExt(E a, unsigned w); E bvSExt(E a, unsigned w);
E bvIte(E c, E a, E b); E bvEq(E a, E b);
E bvCmp(Kind k, E a, E b);
bool bvIsConst(E e, uint64_t &v);
mpz_class bvBig(E e);
E intToBv(E a, unsigned w);
E fpCmp(unsigned pred, E a, E b);
E fpOp(unsigned op, const std::vector<E> &kids, unsigned w);

E aConst(const mpq_class &q, Sort s); E aVar(const std::string &n, Sort s);
E aVarBounded(const std::string &n, const mpz_class &lo, const mpz_class &hi);
E aAdd(E a, E b); E aSub(E a, E b); E aMul(E a, E b); E aNeg(E a); E aScale(E a, const mpq_class &q);
E aDiv(E a, E b);                    // Real division, divisor known != 0 on path
E iDiv(E a, E b); E iMod(E a, E b);  // floor division/modulus; b > 0 on path
bool splitAtom(E a, E &body, mpz_class &thr); E mkAtom(Kind k, E p);
E modNormalize(E r); bool polyDivSplit(E x, E y, E &q, E &r);
E aIte(E c, E a, E b); E aFloor(E a, unsigned bits); E bvToInt(E a, bool sgn); E toReal(E a);
E aUF(const std::string &n, const std::vector<E> &args);
// rewriting of a real polynomial modulo inverses (denominators cleared) and root rules v^k = p; zero iff the result is
struct RootRule { E v; uint32_t k; E p; }; bool rootRule(E atomPoly, RootRule &r); E algebraReduce(E p, const std::vector<RootRule> &rules);
bool thirdAngle(E x, E &u, int &k); bool halfLog(E x, E &u);
E aLt(E a, E b); E aLe(E a, E b); E aEq(E a, E b);
bool aIsConst(E e, mpq_class &q);
bool intInterval(E e, mpz_class &lo, mpz_class &hi);

std::string toStr(E e, int depth = 6);
size_t numExprs();
size_t polySize(E e);

// ---- models & evaluation
struct ModelVal { mpq_class q; };     // Bool: 0/1, BV: unsigned value, Int/Real: value
typedef std::unordered_map<uint32_t, mpq_class> Model;
// evaluate under model (missing vars read as 0). returns false if not evaluable
struct Evaluator {
  const Model &m; std::unordered_map<uint32_t, mpq_class> memo; bool ok = true;
  Evaluator(const Model &m) : m(m) {}
  mpq_class eval(E e);
  bool evalBool(E e, bool &r) { mpq_class v = eval(e); if (!ok) return false; r = v != 0; return true; }
};
void collectVars(E e, std::vector<E> &out);   // unique variables
const std::vector<uint32_t> &varIds(E e);     // cached sorted ids
}
