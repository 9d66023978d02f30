// included inside namespace ve (exec.cpp)
static uint64_t funcAddr(const Function *F) { auto it = gaddr.find(F); if (it != gaddr.end()) return it->second; uint64_t a = mkAddr(CLS_FUNC, funcs.size() + 1); funcs.push_back(F); gaddr[F] = a; return a; }
static const Function *funcAt(uint64_t a) { if (keyClass(a) != CLS_FUNC) return nullptr; uint32_t n = keyCnt(a); if (n == 0 || n > funcs.size()) return nullptr; return funcs[n - 1]; }
static Val constVal(const Constant *C) {
  Type *t = C->getType();
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() <= 64) return conc(ci->getZExtValue()); Val v; v.t = VSym; SmallString<64> s; ci->getValue().toStringUnsigned(s); v.e = bvConstBig(mpz_class(std::string(s.str())), ci->getBitWidth()); return v; }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { if (t->isX86_FP80Ty()) { Val v; return v; } return conc(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if (isa<ConstantPointerNull>(C)) return conc(0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    if (auto *s = dyn_cast<StructType>(t)) { Agg g; for (auto *e : s->elements()) g.push_back(constVal(isa<UndefValue>(C) ? (Constant*)UndefValue::get(e) : Constant::getNullValue(e))); return aggv(g); }
    if (auto *a = dyn_cast<ArrayType>(t)) { Agg g(a->getNumElements(), constVal(isa<UndefValue>(C) ? (Constant*)UndefValue::get(a->getElementType()) : Constant::getNullValue(a->getElementType()))); return aggv(g); }
    if (auto *a = dyn_cast<FixedVectorType>(t)) { Agg g(a->getNumElements(), constVal(isa<UndefValue>(C) ? (Constant*)UndefValue::get(a->getElementType()) : Constant::getNullValue(a->getElementType()))); return aggv(g); }
    return conc(0);
  }
  if (isa<ConstantAggregate>(C)) { Agg g; for (unsigned i = 0; i < C->getNumOperands(); i++) g.push_back(constVal(cast<Constant>(C->getOperand(i)))); return aggv(g); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { Agg g; for (unsigned i = 0; i < cd->getNumElements(); i++) g.push_back(constVal(cd->getElementAsConstant(i))); return aggv(g); }
  if (auto *f = dyn_cast<Function>(C)) return conc(funcAddr(f));
  if (auto *ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(gv); if (it == gaddr.end()) throw EngineError{"unknown global " + gv->getName().str()}; return conc(it->second); }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw EngineError{"const gep"}; Val b = constVal(cast<Constant>(g->getPointerOperand())); return conc(b.c + off.getSExtValue()); }
    switch (ce->getOpcode()) { case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::Add: return conc(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c); case Instruction::Sub: return conc(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
      case Instruction::Trunc: return conc(constVal(ce->getOperand(0)).c & maskw(typeBits(ce->getType())));
      default: break; }
    if (ce->isCompare()) { auto a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); if (ce->getPredicate() == CmpInst::ICMP_EQ) return conc(a.c == b.c); if (ce->getPredicate() == CmpInst::ICMP_NE) return conc(a.c != b.c); }
  }
  std::string s; raw_string_ostream o(s); C->print(o); throw EngineError{"constant: " + s};
}
static std::string fileOf(const DISubprogram *sp) { std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/' && sp->getFile()) f = sp->getFile()->getDirectory().str() + "/" + f; return f; }
static void coverScope(const DISubprogram *sp) { static std::set<const DISubprogram*> seen; if (!sp || !seen.insert(sp).second) return; std::string f = fileOf(sp); size_t p = f.find(cfg.repo + "/"); if (p != 0) return; std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); if (n.size() > 160) n = n.substr(0, 160) + "..."; covered.insert(f.substr(cfg.repo.size() + 1) + ": " + n); }
static void coverBlock(PBlock &b) { b.visited = true; for (auto &I : *b.bb) { const DILocation *l = I.getDebugLoc().get(); while (l) { coverScope(l->getScope()->getSubprogram()); l = l->getInlinedAt(); } } }
static int intrinsicCode(const Function *F);
static FInfo *getF(const Function *F) {
  auto &fi = finfos[F]; if (fi) return fi;
  fi = new FInfo(); FInfo &f = *fi; f.F = F; f.dem = demangle(F->getName().str());
  std::map<const Value*, int> slot; for (auto &a : F->args()) slot[&a] = f.nslots++;
  std::map<const BasicBlock*, int> bi; for (auto &b : *F) { bi[&b] = f.bl.size(); PBlock pb; pb.bb = &b; f.bl.push_back(pb); for (auto &I : b) if (!I.getType()->isVoidTy()) slot[&I] = f.nslots++; }
  auto opnd = [&](const Value *v) { Opnd o; auto it = slot.find(v); if (it != slot.end()) o.slot = it->second; else if (auto *c = dyn_cast<Constant>(v)) o.cv = constVal(c); else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {} else throw EngineError{"operand"}; return o; };
  for (auto &b : *F) {
    PBlock &pb = f.bl[bi[&b]]; pb.first = f.ins.size(); pb.firstNonPhi = -1;
    for (auto &I : b) {
      PI p; p.I = &I; p.op = I.getOpcode(); if (slot.count(&I)) p.dst = slot[&I];
      if (auto *ph = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) pb.phis[bi[ph->getIncomingBlock(i)]].push_back({p.dst, opnd(ph->getIncomingValue(i))}); f.ins.push_back(p); continue; }
      if (pb.firstNonPhi < 0) pb.firstNonPhi = f.ins.size();
      Type *t = I.getType();
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        p.o.push_back(opnd(g->getPointerOperand()));
        if (!g->getType()->isVectorTy()) for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value *idx = it.getOperand();
          if (auto *s = it.getStructTypeOrNull()) p.base += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          else { int64_t es = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(idx)) p.base += ci->getSExtValue() * es; else { p.scale.push_back({es, (int)p.o.size()}); p.o.push_back(opnd(idx)); p.o.back(); p.sz = 0; } }
        } else p.intr = -1;
        f.ins.push_back(p); continue;
      }
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(&I)) { p.intr = 1; f.ins.push_back(p); continue; }
        for (auto &a : cb->args()) { if (isa<MetadataAsValue>(a.get())) { p.o.push_back(Opnd()); continue; } p.o.push_back(opnd(a.get())); }
        const Value *cv = cb->getCalledOperand()->stripPointerCasts(); p.callee = dyn_cast<Function>(cv); if (!p.callee) if (auto *ga = dyn_cast<GlobalAlias>(cv)) p.callee = dyn_cast<Function>(ga->getAliaseeObject());
        if (!p.callee) p.o.push_back(opnd(cb->getCalledOperand()));
        if (p.callee) p.intr = intrinsicCode(p.callee);
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { p.t0 = bi[iv->getNormalDest()]; p.t1 = bi[iv->getUnwindDest()]; }
        if (!t->isVoidTy()) { p.w = typeBits(t); p.isF = isFPTy(t); }
        f.ins.push_back(p); continue;
      }
      for (auto &o : I.operands()) if (!isa<BasicBlock>(o.get())) p.o.push_back(opnd(o.get()));
      if (auto *br = dyn_cast<BranchInst>(&I)) { p.t0 = bi[br->getSuccessor(0)]; if (br->isConditional()) p.t1 = bi[br->getSuccessor(1)]; }
      if (!t->isVoidTy()) { p.w = typeBits(t); p.isF = isFPTy(t); }
      if (isa<ICmpInst>(&I) || isa<FCmpInst>(&I) || isa<CastInst>(&I)) p.w = typeBits(I.getOperand(0)->getType()->getScalarType());
      if (auto *al = dyn_cast<AllocaInst>(&I)) p.sz = DL->getTypeAllocSize(al->getAllocatedType());
      f.ins.push_back(p);
    }
  }
  return fi;
}
static int blockIdx(FInfo *f, const BasicBlock *b) { for (size_t i = 0; i < f->bl.size(); i++) if (f->bl[i].bb == b) return i; return -1; }
static int ipdomOf(FInfo *f, int b) {
  if (!f->pd) { PostDominatorTree pdt(*const_cast<Function*>(f->F)); std::map<const BasicBlock*, int> bi; for (size_t i = 0; i < f->bl.size(); i++) bi[f->bl[i].bb] = i; for (auto &pb : f->bl) { auto *n = pdt.getNode(const_cast<BasicBlock*>(pb.bb)); pb.ipdom = -1; if (n && n->getIDom() && n->getIDom()->getBlock()) pb.ipdom = bi[n->getIDom()->getBlock()]; } f->pd = true; }
  return f->bl[b].ipdom;
}
// ---------------------------------------------------------------- groups / merging
static void complete(GP g);
static bool matches(State &S, Group &g) { if (g.explicitG) return false; if ((int)S.fr.size() < g.depth) return true; if ((int)S.fr.size() > g.depth || g.block < 0) return false; Frame &f = S.fr.back(); return f.block == g.block && f.pc == f.f->bl[g.block].firstNonPhi; }
static void park(State *S) { GP g = S->groups.back(); g->parked.push_back(S); if ((int)g->parked.size() == g->live) complete(g); }
static bool arrive(State *S) { if (!S->groups.empty() && matches(*S, *S->groups.back())) { park(S); return true; } return false; }
static void terminate(State *S) { std::vector<GP> gs = S->groups; delete S; for (int i = (int)gs.size() - 1; i >= 0; i--) gs[i]->live--; for (int i = (int)gs.size() - 1; i >= 0; i--) if (gs[i]->live > 0 && (int)gs[i]->parked.size() == gs[i]->live) complete(gs[i]); }
static bool mergeObj(E c, const Object &a, const Object &b, OP &out) {
  if (a.size != b.size) return false; auto r = std::make_shared<Object>(a);
  uint32_t i = 0, n = a.size;
  while (i < n) {
    auto ca = a.sym.find(i), cb = b.sym.find(i); bool ha = ca != a.sym.end(), hb = cb != b.sym.end();
    if (!ha && !hb && a.st[i] == b.st[i] && (a.st[i] == 2 || (a.st[i] == 0 && a.d[i] == b.d[i]))) { i++; continue; }
    if (ha && hb && ca->second.n == cb->second.n && ca->second.v.t == cb->second.v.t && ca->second.v.e == cb->second.v.e) { i += ca->second.n; continue; }
    uint32_t len;
    if (ha && hb) { if (ca->second.n != cb->second.n) { // different widths: byte level through copies
        Object ta = a, tb = b; uint32_t m = std::max(ca->second.n, cb->second.n); try { if (ta.sym.count(i)) splitCell(ta, i); if (tb.sym.count(i)) splitCell(tb, i); for (uint32_t k = i; k < i + m && k < n; k++) { if (ta.sym.count(k) && ta.sym[k].n > 1) splitCell(ta, k); if (tb.sym.count(k) && tb.sym[k].n > 1) splitCell(tb, k); } } catch (EngineError &) { return false; } return mergeObj(c, ta, tb, out); }
      len = ca->second.n; }
    else if (ha || hb) { len = ha ? ca->second.n : cb->second.n; const Object &o = ha ? b : a; bool un = true, cc = true; for (uint32_t k = i; k < i + len; k++) { if (o.st[k] != 2) un = false; if (o.st[k] != 0) cc = false; }
      if (un) { if (!ha) { for (uint32_t k = i; k < i + len; k++) r->st[k] = 1; r->sym[i] = cb->second; } i += len; continue; }
      if (!cc) { Object ta = a, tb = b; try { if (ha) splitCell(ta, i); else splitCell(tb, i); for (uint32_t k = i; k < i + len && k < n; k++) { if (ta.sym.count(k) && ta.sym[k].n > 1) splitCell(ta, k); if (tb.sym.count(k) && tb.sym[k].n > 1) splitCell(tb, k); } } catch (EngineError &) { return false; } return mergeObj(c, ta, tb, out); } }
    else { // both non-cell start: concrete/uninit mismatch
      if (a.st[i] == 2) { if (b.st[i] == 0) { r->st[i] = 0; r->d[i] = b.d[i]; i++; continue; } if (b.st[i] == 1) return false; }
      if (b.st[i] == 2) { i++; continue; }
      if (a.st[i] == 1 || b.st[i] == 1) return false; // in the middle of a cell
      // both concrete: take the aligned chunk
      uint32_t s0 = i & ~7u; len = 8; bool ok = s0 + 8 <= n; if (ok) for (uint32_t k = s0; k < s0 + 8; k++) if (a.st[k] || b.st[k]) ok = false;
      if (!ok) { s0 = i & ~3u; len = 4; ok = s0 + 4 <= n; if (ok) for (uint32_t k = s0; k < s0 + 4; k++) if (a.st[k] || b.st[k]) ok = false; }
      if (!ok) { s0 = i; len = 1; }
      uint64_t va = 0, vb = 0; memcpy(&va, &a.d[s0], len); memcpy(&vb, &b.d[s0], len); Val x; if (!mergeVal(c, conc(va), conc(vb), len * 8, x)) return false; storeRaw(*r, s0, len, x); i = s0 + len; continue; }
    Val va, vb; auto get = [&](const Object &o, bool h, std::map<uint32_t, Cell>::const_iterator it) { if (h) return it->second.v; uint64_t v = 0; memcpy(&v, &o.d[i], std::min(len, 8u)); return conc(v); };
    va = get(a, ha, ca); vb = get(b, hb, cb); Val x; if (!mergeVal(c, va, vb, len * 8, x)) return false; storeRaw(*r, i, len, x); i += len;
  }
  out = r; return true;
}
static std::string lastMergeFail;
static bool mergeStates(State &A, State &B) {
  if (A.fr.size() != B.fr.size() || A.groups != B.groups) { lastMergeFail = "frames/groups"; return false; }
  for (size_t i = 0; i < A.fr.size(); i++) if (A.fr[i].f != B.fr[i].f || A.fr[i].block != B.fr[i].block || A.fr[i].pc != B.fr[i].pc) { lastMergeFail = "position"; return false; }
  if (A.excType != B.excType) return false;
  std::vector<E> common; E ca = mkTrue(), cb = mkTrue(); E disc = nullptr; std::vector<E> sa, sb;
  std::unordered_set<E> pa(A.pc.begin(), A.pc.end()), pb(B.pc.begin(), B.pc.end());
  for (E e : A.pc) if (pb.count(e)) common.push_back(e); else { sa.push_back(e); ca = mkAnd(ca, e); if (!disc && pb.count(mkNot(e))) disc = e; }
  for (E e : B.pc) if (!pa.count(e)) { sb.push_back(e); cb = mkAnd(cb, e); }
  E c = disc ? disc : ca; if (isTrue(c)) { c = mkNot(cb); }
  // registers
  std::vector<std::vector<Val>> regs(A.fr.size());
  for (size_t i = 0; i < A.fr.size(); i++) { auto &ra = A.fr[i].r, &rb = B.fr[i].r; regs[i].resize(ra.size()); for (size_t k = 0; k < ra.size(); k++) { 
      if (!mergeVal(c, ra[k], rb[k], 64, regs[i][k])) { lastMergeFail = "register"; return false; } } }
  // fix the widths of merged constants: registers hold values of unknown width; conc/conc merges were done at 64 bits -> re-extract lazily by type
  for (size_t i = 0; i < A.fr.size(); i++) for (auto &p : A.fr[i].f->ins) if (p.dst >= 0 && (size_t)p.dst < regs[i].size()) { Val &v = regs[i][p.dst]; const Val &va = A.fr[i].r[p.dst], &vb = B.fr[i].r[p.dst]; if (v.t == VSym || v.t == VReal) { Type *t = p.I->getType(); if (!t->isSingleValueType() || t->isVectorTy()) continue; unsigned w = typeBits(t); bool same = va.t == vb.t && (va.t == VSym || va.t == VReal) && va.e == vb.e; if (same) continue; if (!mergeVal(c, va, vb, w, v)) { lastMergeFail = "register"; return false; } if (cfg.real && isFPTy(t) && v.t == VSym) { try { v = realV(asReal(v, w), w); } catch (EngineError &) { lastMergeFail = "real register"; return false; } } } }
  for (size_t i = 0; i < A.fr.size(); i++) for (auto &ar : A.fr[i].f->F->args()) { int k = ar.getArgNo(); const Val &va = A.fr[i].r[k], &vb = B.fr[i].r[k]; Val &v = regs[i][k]; if ((v.t == VSym || v.t == VReal) && ar.getType()->isSingleValueType() && !ar.getType()->isVectorTy()) { bool same = va.t == vb.t && (va.t == VSym || va.t == VReal) && va.e == vb.e; if (same) continue; unsigned w = typeBits(ar.getType()); if (!mergeVal(c, va, vb, w, v)) return false; if (cfg.real && isFPTy(ar.getType()) && v.t == VSym) try { v = realV(asReal(v, w), w); } catch (EngineError &) { return false; } } }
  // memory
  Memory nm; nm.cls.resize(std::max(A.mem.cls.size(), B.mem.cls.size()));
  for (size_t i = 0; i < nm.cls.size(); i++) {
    auto ta = i < A.mem.cls.size() ? A.mem.cls[i] : nullptr, tb = i < B.mem.cls.size() ? B.mem.cls[i] : nullptr;
    if (ta == tb || !tb) { nm.cls[i] = ta; continue; } if (!ta) { nm.cls[i] = tb; continue; }
    auto t = std::make_shared<ClassTab>(*ta); t->next = std::max(ta->next, tb->next); t->ch.resize(std::max(ta->ch.size(), tb->ch.size()));
    for (size_t k = 0; k < t->ch.size(); k++) {
      auto xa = k < ta->ch.size() ? ta->ch[k] : nullptr, xb = k < tb->ch.size() ? tb->ch[k] : nullptr;
      if (xa == xb || !xb) { t->ch[k] = xa; continue; } if (!xa) { t->ch[k] = xb; continue; }
      auto nc = std::make_shared<Chunk>(*xa);
      for (int q = 0; q < CH; q++) { auto &oa = xa->o[q], &ob = xb->o[q]; if (oa == ob) continue; if (!oa) { nc->o[q] = ob; continue; } if (!ob) continue; OP r; if (!mergeObj(c, *oa, *ob, r)) { lastMergeFail = "object " + oa->name; return false; } nc->o[q] = r; }
      t->ch[k] = nc;
    }
    nm.cls[i] = t;
  }
  // inputs
  std::vector<Input> in = A.inputs; for (auto &x : B.inputs) { bool f = false; for (auto &y : in) if (y.name == x.name && y.idx == x.idx) { f = true; if (y.e != x.e || (!y.e && y.c != x.c)) { E ya = y.e ? y.e : aConst(mpq_class(mpz_class((long)y.c)), SInt), xb = x.e ? x.e : aConst(mpq_class(mpz_class((long)x.c)), SInt); try { if (ya->s == SBV || xb->s == SBV) y.e = bvIte(c, ya, xb); else if (ya->s == SBool) y.e = mkBIte(c, ya, xb); else y.e = aIte(c, ya, xb); } catch (...) { return false; } } break; } if (!f) in.push_back(x); }
  A.inputs = in;
  for (size_t i = 0; i < A.fr.size(); i++) { A.fr[i].r = std::move(regs[i]); for (auto a : B.fr[i].allocas) if (std::find(A.fr[i].allocas.begin(), A.fr[i].allocas.end(), a) == A.fr[i].allocas.end()) A.fr[i].allocas.push_back(a); }
  A.mem = std::move(nm);
  std::unordered_set<E> ps; for (E e : A.pcset) if (B.pcset.count(e)) ps.insert(e);
  A.pc = common; A.pcset.clear(); A.bounds.clear(); for (E e : ps) noteFact(A, e); E o = mkOr(ca, cb); auto model = A.model ? A.model : B.model; A.model = nullptr; addPC(A, o); A.model = model;
  for (auto &p : B.fresh) A.fresh[p.first] = std::max(A.fresh[p.first], p.second);
  A.maybeInfeasible |= B.maybeInfeasible; A.steps = std::max(A.steps, B.steps);
  st.merges++; return true;
}
static void complete(GP g) {
  std::vector<State*> ps = g->parked; g->parked.clear(); int n = ps.size(); g->live = 0;
  std::vector<State*> res; for (State *s : ps) { bool m = false; for (State *r : res) { bool ok = false; try { ok = mergeStates(*r, *s); } catch (EngineError &e) { ok = false; lastMergeFail = e.msg; } if (ok) { m = true; break; } st.mergeFail++; if (cfg.verbose && st.mergeFail < 10) fprintf(stderr, "merge failed: %s at %s\n", lastMergeFail.c_str(), where(*r).c_str()); } if (m) delete s; else res.push_back(s); }
  std::vector<GP> outer = res[0]->groups; outer.pop_back(); for (auto &o : outer) o->live -= n - (int)res.size();
  for (State *r : res) { r->groups.pop_back(); }
  for (State *r : res) if (!arrive(r)) work.push_back(r);
}
// ---------------------------------------------------------------- calls
enum Intr { I_NONE = 0, I_NOP = 1, I_STUB0, I_STUBTHIS, I_MALLOC, I_NEW, I_CALLOC, I_REALLOC, I_FREE, I_MEMCPY, I_MEMSET, I_ABORT, I_EXIT, I_THROW, I_THROWSTD, I_ALLOCEXC, I_BEGINCATCH, I_RETHROW, I_TYPEID, I_GUARD, I_MATH, I_LLVM, I_VE, I_ASSERTFAIL, I_UNSUP, I_ALIGNEDNEW };
static std::map<const Function*, std::string> iname;
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static int intrinsicCode(const Function *F) {
  std::string n = F->getName().str(); iname[F] = n;
  if (starts(n, "llvm.")) { static const char *nops[] = {"llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.prefetch", "llvm.donothing", "llvm.stackrestore", "llvm.va_end", "llvm.sideeffect"}; for (auto p : nops) if (starts(n, p)) return I_NOP; if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) return I_MEMCPY; if (starts(n, "llvm.memset")) return I_MEMSET; if (starts(n, "llvm.trap") || starts(n, "llvm.ubsantrap")) return I_ABORT; if (starts(n, "llvm.eh.typeid.for")) return I_TYPEID; return I_LLVM; }
  if (starts(n, "ve_")) return F->isDeclaration() ? I_VE : I_NONE;
  static const std::map<std::string, int> tab = {
    {"malloc", I_MALLOC}, {"_Znwm", I_NEW}, {"_Znam", I_NEW}, {"_ZnwmRKSt9nothrow_t", I_NEW}, {"_ZnamRKSt9nothrow_t", I_NEW}, {"_ZnwmSt11align_val_t", I_NEW}, {"calloc", I_CALLOC}, {"realloc", I_REALLOC}, {"free", I_FREE}, {"_ZdlPv", I_FREE}, {"_ZdaPv", I_FREE}, {"_ZdlPvm", I_FREE}, {"_ZdaPvm", I_FREE}, {"_ZdlPvSt11align_val_t", I_FREE}, {"_ZdlPvmSt11align_val_t", I_FREE},
    {"memcpy", I_MEMCPY}, {"memmove", I_MEMCPY}, {"memset", I_MEMSET}, {"abort", I_ABORT}, {"exit", I_EXIT}, {"_exit", I_EXIT}, {"_ZSt9terminatev", I_ABORT}, {"__clang_call_terminate", I_ABORT}, {"__assert_fail", I_ASSERTFAIL}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", I_ASSERTFAIL},
    {"__cxa_throw", I_THROW}, {"__cxa_allocate_exception", I_ALLOCEXC}, {"__cxa_begin_catch", I_BEGINCATCH}, {"__cxa_end_catch", I_NOP}, {"__cxa_rethrow", I_RETHROW}, {"__cxa_free_exception", I_NOP}, {"__cxa_guard_acquire", I_GUARD}, {"__cxa_guard_release", I_NOP}, {"__cxa_guard_abort", I_NOP}, {"__cxa_atexit", I_STUB0}, {"atexit", I_STUB0},
    {"printf", I_STUB0}, {"fprintf", I_STUB0}, {"puts", I_STUB0}, {"putchar", I_STUB0}, {"fputs", I_STUB0}, {"fputc", I_STUB0}, {"fwrite", I_STUB0}, {"fflush", I_STUB0}, {"vfprintf", I_STUB0}, {"perror", I_NOP}, {"sched_setaffinity", I_STUB0}, {"pthread_setaffinity_np", I_STUB0}, {"pthread_self", I_STUB0}, {"getrusage", I_STUB0}, {"clock", I_STUB0}, {"time", I_STUB0}, {"usleep", I_STUB0}, {"_ZNSt6chrono3_V212system_clock3nowEv", I_STUB0}, {"_ZNSt6chrono3_V212steady_clock3nowEv", I_STUB0}, {"pthread_mutex_lock", I_STUB0}, {"pthread_mutex_unlock", I_STUB0}, {"pthread_once", I_STUB0}, {"setenv", I_STUB0}, {"getenv", I_STUB0}, {"__errno_location", I_STUB0}, {"getpid", I_STUB0},
  };
  auto it = tab.find(n); if (it != tab.end()) return it->second;
  if (starts(n, "_ZSt") && n.find("__throw_") != std::string::npos && n.find("__throw_") < 12) return I_THROWSTD;
  static const std::set<std::string> math = {"sqrt", "sqrtf", "fabs", "fabsf", "floor", "floorf", "ceil", "ceilf", "pow", "powf", "exp", "expf", "log", "logf", "log2", "log10", "sin", "sinf", "cos", "cosf", "tan", "atan", "atan2", "atan2f", "acos", "asin", "acosf", "hypot", "fmod", "fmodf", "cbrt", "cbrtf", "round", "lround", "trunc", "fmin", "fmax", "fminf", "fmaxf", "exp2", "sinh", "cosh", "tanh", "copysign", "rint", "nearbyint", "roundf", "truncf", "erf"};
  if (F->isDeclaration() && math.count(n)) return I_MATH;
  static const char *ios[] = {"_ZNSo", "_ZStls", "_ZNSt13basic_ostream", "_ZNSt14basic_ostream", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNKSt8ios_base", "_ZNSt6localeC", "_ZNSt6localeD", "_ZSt9use_facet", "_ZSt16__throw_bad_cast", "_ZStlsI", "_ZNSolsE"};
  for (auto p : ios) if (starts(n, p)) return I_STUBTHIS;
  if (F->isDeclaration()) return I_UNSUP;
  return I_NONE;
}
static std::string cstr(State &S, const Val &p) { if (p.t != VConc || !p.c) return "?"; const Object *o = S.mem.get(p.c); if (!o) return "?"; std::string s; for (uint32_t i = p.c & ((1u << OFFB) - 1); i < o->size && o->d[i]; i++) s += o->d[i]; return s; }
static Val get(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.r[o.slot] : o.cv; }
static void gotoBlock(State &S, int b) {
  Frame &f = S.fr.back(); PBlock &pb = f.f->bl[b]; if (!pb.visited) coverBlock(pb);
  auto it = pb.phis.find(f.block); if (it != pb.phis.end()) { if (it->second.size() == 1) f.r[it->second[0].first] = get(f, it->second[0].second); else { std::vector<Val> tmp; for (auto &p : it->second) tmp.push_back(get(f, p.second)); for (size_t i = 0; i < tmp.size(); i++) f.r[it->second[i].first] = tmp[i]; } }
  f.block = b; f.pc = pb.firstNonPhi;
}
static void popFrame(State &S) { Frame &f = S.fr.back(); for (int i = (int)f.allocas.size() - 1; i >= 0; i--) { uint64_t a = f.allocas[i]; freeObj(S, a); auto &t = S.mem.tabW(keyClass(a)); if (t.next == keyCnt(a) + 1) t.next--; } S.fr.pop_back(); }
static void pushFrame(State &S, const Function *F, const std::vector<Val> &args) {
  FInfo *fi = getF(F); if (S.fr.size() > 2000) throw EngineError{"recursion too deep"}; Frame f; f.f = fi; f.r.resize(fi->nslots); for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) f.r[i] = args[i];
  for (size_t i = F->arg_size(); i < args.size(); i++) f.va.push_back(args[i]);
  f.block = 0; f.pc = fi->bl[0].firstNonPhi; if (!fi->bl[0].visited) coverBlock(fi->bl[0]); if (!fi->visited) { fi->visited = true; coverScope(F->getSubprogram()); }
  // byval arguments
  for (auto &a : F->args()) if (a.hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(a.getParamByValType()); uint64_t n = allocObj(S, sz, true, "byval"); f.allocas.push_back(n); const Object *src = S.mem.get(f.r[a.getArgNo()].c); uint32_t off = f.r[a.getArgNo()].c & ((1u << OFFB) - 1); if (f.r[a.getArgNo()].t != VConc || !src || off + sz > src->size) throw EngineError{"byval"}; Object tmp = *src; Object *d = S.mem.getW(n); for (uint32_t i = 0; i < sz; i++) { d->d[i] = tmp.d[off + i]; d->st[i] = tmp.st[off + i]; } for (auto &c : tmp.sym) if (c.first >= off && c.first + c.second.n <= off + sz) d->sym[c.first - off] = c.second; f.r[a.getArgNo()] = conc(n); }
  S.fr.push_back(std::move(f));
}
static void afterCall(State &S) { // caller frame continues
  Frame &f = S.fr.back(); const PI &p = f.f->ins[f.pc]; if (p.t0 >= 0 && p.op == Instruction::Invoke) gotoBlock(S, p.t0); else f.pc++;
}
static void unwind(State &S) {
  while (!S.fr.empty()) { Frame &f = S.fr.back(); const PI &p = f.f->ins[f.pc]; if (p.op == Instruction::Invoke) { gotoBlock(S, p.t1); return; } popFrame(S); }
  throw PathEnd{"exception"};
}
static void checkUncaught(State &S, const std::string &tn) { bool has = false; for (auto &f : S.fr) { const PI &p = f.f->ins[f.pc]; if (p.op == Instruction::Invoke) { auto *lp = p.I ? cast<InvokeInst>(p.I)->getLandingPadInst() : nullptr; if (lp && lp->getNumClauses() > 0) has = true; } } if (!has) { violation(S, "exception", "uncaught exception " + tn, nullptr); throw PathEnd{"uncaught exception"}; } }
static void copyMem(State &S, const Val &d0, const Val &s0, uint64_t n) {
  if (n == 0) return; Val d = d0, s = s0;
  if (d.t != VConc) d = conc(concretize(S, d, 64)); if (s.t != VConc) s = conc(concretize(S, s, 64));
  Ref R = resolve(S, s, n, false), W = resolve(S, d, n, true);
  Object src = *S.mem.get(R.addr); Object *o = S.mem.getW(W.addr); if (o->ro) memError(S, "write to constant");
  clearRange(*o, W.off, n); memcpy(&o->d[W.off], &src.d[R.off], n); memcpy(&o->st[W.off], &src.st[R.off], n);
  if (!src.sym.empty()) {
    for (auto it = src.sym.begin(); it != src.sym.end(); ++it) { uint32_t a = it->first, m = it->second.n; if (a + m <= R.off || a >= R.off + n) continue;
      if (a >= R.off && a + m <= R.off + n) { o->sym[W.off + (a - R.off)] = it->second; continue; }
      E b = asBV(it->second.v, m * 8); for (uint32_t k = 0; k < m; k++) if (a + k >= R.off && a + k < R.off + n) { Val v = symI(bvExtract(b, k * 8, 8), 8); uint32_t at = W.off + (a + k - R.off); if (v.t == VConc) { o->d[at] = v.c; o->st[at] = 0; } else { o->st[at] = 1; o->sym[at] = Cell{v, 1}; } } }
  }
}
static void addInput(State &S, const std::string &n, int idx, const char *kind, E e, uint64_t c = 0) { for (auto &i : S.inputs) if (i.name == n && i.idx == idx) throw EngineError{"duplicate input " + n}; S.inputs.push_back({n, idx, kind, e, c}); }
static bool concreteInput(const std::string &n, int idx, mpq_class &q) { if (!cfg.concreteMode) return false; auto it = cfg.concrete.find(n + " " + std::to_string(idx)); if (it == cfg.concrete.end()) { q = 0; return true; } q = mpq_class(it->second); q.canonicalize(); return true; }
static std::vector<std::string> traceOut; static bool allowExc = false;
static Val veCall(State &S, const std::string &n, std::vector<Val> &a) {
  if (n == "ve_sym_bv") { std::string nm = cstr(S, a[0]); unsigned w = a[2].c; int idx = (int)a[1].c; mpq_class q; if (concreteInput(nm, idx, q)) return conc(mpz_get_ui(q.get_num_mpz_t()) & maskw(w)); E e = bvVar("in:" + nm + ":" + std::to_string(idx), w); addInput(S, nm, idx, "bv", e); return symI(bvZExt(e, 64), 64); }
  if (n == "ve_sym_int") { std::string nm = cstr(S, a[0]); int idx = (int)a[1].c; mpq_class q; if (concreteInput(nm, idx, q)) return conc((uint64_t)q.get_num().get_si()); E e = aVarBounded("in:" + nm + ":" + std::to_string(idx), mpz_class((long)a[2].c), mpz_class((long)a[3].c)); addInput(S, nm, idx, "int", e); return symI(e, 64); }
  if (n == "ve_sym_real") { std::string nm = cstr(S, a[0]); int idx = (int)a[1].c; mpq_class q; if (concreteInput(nm, idx, q)) return realV(aConst(q, SReal), 64); if (!cfg.real) { E e = bvVar("in:" + nm + ":" + std::to_string(idx), 64); addInput(S, nm, idx, "f64", e); return symI(e, 64); } E e = aVar("in:" + nm + ":" + std::to_string(idx), SReal); addInput(S, nm, idx, "real", e); return realV(e, 64); }
  if (n == "ve_choice") { std::string nm = cstr(S, a[0]); int idx = (int)a[1].c; mpq_class q; if (concreteInput(nm, idx, q)) return conc((uint64_t)q.get_num().get_si()); int cnt = (int)a[2].c; if (cnt < 1) throw PathEnd{"empty choice"};
    E v = aVarBounded("ch:" + nm + ":" + std::to_string(idx), 0, cnt - 1); int r = -1; for (int i = 0; i < cnt - 1; i++) if (decide(S, aEq(v, aConst(i, SInt)))) { r = i; break; } if (r < 0) r = cnt - 1; addInput(S, nm, idx, "int", nullptr, r); return conc(r); }
  if (n == "ve_concretize") return conc(concretize(S, a[0], 64));
  if (n == "ve_param") { std::string nm = cstr(S, a[0]); auto it = cfg.concrete.find("param " + nm); return it == cfg.concrete.end() ? a[1] : conc((uint64_t)atoll(it->second.c_str())); }
  if (n == "ve_assume") { E c = a[0].t == VConc ? mkBool((int)a[0].c != 0) : mkNot(a[0].e->s == SBV ? bvEq(a[0].e, bvConst(0, 32)) : aEq(asInt(a[0], 32), aConst(0, SInt))); bool v; if (known(S, c, v)) { if (!v) throw PathEnd{"assume"}; return Val(); }
    bool need = true; if (S.model) { Evaluator ev(*S.model); bool b; if (ev.evalBool(c, b) && b) need = false; } if (need && !cfg.lazy) { Res r = feasible(S, c); if (r == UNSAT) throw PathEnd{"assume"}; if (r == UNKNOWN) S.maybeInfeasible = true; } addPC(S, c); return Val(); }
  if (n == "ve_check") { std::string msg = cstr(S, a[1]); st.asserts++; auto &as = assertStat[msg]; E c = a[0].t == VConc ? mkBool((int)a[0].c != 0) : mkNot(a[0].e->s == SBV ? bvEq(a[0].e, bvConst(0, 32)) : aEq(asInt(a[0], 32), aConst(0, SInt)));
    if (cfg.concreteMode) traceOut.push_back("check " + msg + " " + (isTrue(c) ? "1" : isFalse(c) ? "0" : "?"));
    as.first++; bool v; if (known(S, c, v) && v) { st.assertsProved++; st.assertsTrivial++; as.second++; return Val(); }
    std::vector<E> parts; if (c->k == KAnd) parts = c->kids; else parts = {c}; bool allok = true;
    for (E p : parts) { if (S.pcset.count(p)) continue; E neg = mkNot(p); bool sat = false; Res r = UNKNOWN; if (S.model) { Evaluator ev(*S.model); bool b; if (ev.evalBool(neg, b) && b) { sat = true; sstats.modelHits++; } }
      if (!sat) { std::vector<E> sl; slice(S.pc, neg, sl); sl.push_back(neg); Model m; bool ex; r = solve(sl, &m, &ex, true); if (r == SAT) sat = true; }
      if (sat) { allok = false; violation(S, "assert", msg, neg); }
      else if (r == UNKNOWN) { allok = false; st.unknown++; unknownAsserts[msg]++; if (cfg.verbose) fprintf(stderr, "UNKNOWN assert %s at %s\n", msg.c_str(), where(S).c_str()); }
      else noteFact(S, p); }
    if (allok) { st.assertsProved++; as.second++; noteFact(S, c); return Val(); }
    // continue under the assertion, if possible
    if (isFalse(c) || feasible(S, c) == UNSAT) throw PathEnd{"assert"}; addPC(S, c); return Val(); }
  if (n == "ve_reach") { std::string nm = cstr(S, a[0]); auto &r = reaches[nm]; if (r == 0) { ensureModel(S); bool ok = S.model != nullptr; if (!ok) { Model m; bool ex; ok = solve(S.pc, &m, &ex, true) == SAT; } if (ok) r++; } else r++; return Val(); }
  if (n == "ve_merge_begin") { auto g = std::make_shared<Group>(); g->explicitG = true; g->depth = S.fr.size(); g->block = -1; g->id = nextGroup++; S.groups.push_back(g); return Val(); }
  if (n == "ve_lazy") { bool old = S.lazy; S.lazy = a[0].c & 1; return conc(old); }
  if (n == "ve_automerge") { bool old = S.automerge; S.automerge = a[0].c & 1; return conc(old); }
  if (n == "ve_native") return conc(cfg.concreteMode ? 1 : 0); // tolerances also when validating a concrete run
  if (n == "ve_trace") { if (cfg.concreteMode) traceOut.push_back(cstr(S, a[0]) + " " + (a[1].t == VConc ? std::to_string((long long)a[1].c) : std::string("?"))); return Val(); }
  if (n == "ve_trace_real") { if (cfg.concreteMode) { char b[64]; snprintf(b, 64, "%.17g", a[1].t == VConc ? dOf(a[1].c) : a[1].t == VReal && a[1].e->k == KAConst ? a[1].e->coef[0].get_d() : NAN); traceOut.push_back(cstr(S, a[0]) + " " + b); } return Val(); }
  if (n == "ve_dump" || n == "ve_dump_real") { fprintf(stderr, "DUMP %s: ", cstr(S, a[0]).c_str()); if (a[1].t == VConc) fprintf(stderr, "conc %lld\n", (long long)a[1].c); else fprintf(stderr, "%s\n", toStr(a[1].e, 8).c_str()); return Val(); }
  if (n == "ve_is_sym") return conc(a[0].t != VConc);
  if (n == "ve_fail") { violation(S, "assert", cstr(S, a[0]), nullptr); st.asserts++; throw PathEnd{"fail"}; }
  if (n == "ve_end_path") throw PathEnd{"ended by harness"};
  if (n == "ve_note") { assumptions.insert(cstr(S, a[0])); return Val(); }
  throw EngineError{"unknown ve call " + n};
}
static Val mathCall(State &S, std::string n, std::vector<Val> &a, unsigned w) {
  if (n.size() > 1 && n.back() == 'f' && n != "erf") n.pop_back();
  bool allc = true; for (auto &v : a) if (v.t != VConc) allc = false;
  if (n == "sqrt") return sqrtV(S, a[0], w); if (n == "fabs") return fabsV(a[0], w);
  if (n == "cbrt" && cfg.real) return cbrtV(S, a[0], w);
  if (n == "fmod") return fbin(S, Instruction::FRem, a[0], a[1], w);
  if (n == "fmin" || n == "minnum") { Val c = fcmp(S, CmpInst::FCMP_OLT, a[0], a[1], w); if (isSpecial(a[0], w) && std::isnan(fpOf(a[0].c, w))) return a[1]; if (isSpecial(a[1], w) && std::isnan(fpOf(a[1].c, w))) return a[0]; Val r; if (c.t == VConc) return c.c ? a[0] : a[1]; if (cfg.real && mergeVal(asBool(c), a[0], a[1], w, r)) return r; return decide(S, asBool(c)) ? a[0] : a[1]; }
  if (n == "fmax" || n == "maxnum") { Val c = fcmp(S, CmpInst::FCMP_OGT, a[0], a[1], w); if (isSpecial(a[0], w) && std::isnan(fpOf(a[0].c, w))) return a[1]; if (isSpecial(a[1], w) && std::isnan(fpOf(a[1].c, w))) return a[0]; Val r; if (c.t == VConc) return c.c ? a[0] : a[1]; if (cfg.real && mergeVal(asBool(c), a[0], a[1], w, r)) return r; return decide(S, asBool(c)) ? a[0] : a[1]; }
  if (n == "pow" && a[1].t == VConc && cfg.real && !allc) { double y = fpOf(a[1].c, w); if (y == 0.5) return sqrtV(S, a[0], w); if (y == std::floor(y) && std::fabs(y) <= 16) { int k = (int)std::fabs(y); E x = asReal(a[0], w), r = aConst(1, SReal); for (int i = 0; i < k; i++) r = aMul(r, x); if (y >= 0) return realV(r, w); return fbin(S, Instruction::FDiv, conc(toBits(1.0, w)), realV(r, w), w); } }
  if (allc) { double x = fpOf(a[0].c, w), y = a.size() > 1 ? fpOf(a[1].c, w) : 0, r;
    if (n == "floor") r = floor(x); else if (n == "ceil") r = ceil(x); else if (n == "trunc") r = trunc(x); else if (n == "round") r = round(x); else if (n == "rint" || n == "nearbyint") r = rint(x); else if (n == "pow") r = pow(x, y); else if (n == "exp") r = exp(x); else if (n == "log") r = log(x); else if (n == "log2") r = log2(x); else if (n == "log10") r = log10(x); else if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x); else if (n == "atan") r = atan(x); else if (n == "atan2") r = atan2(x, y); else if (n == "acos") r = acos(x); else if (n == "asin") r = asin(x); else if (n == "hypot") r = hypot(x, y); else if (n == "cbrt") r = cbrt(x); else if (n == "exp2") r = exp2(x); else if (n == "copysign") r = copysign(x, y); else if (n == "tanh") r = tanh(x); else if (n == "lround") return conc((uint64_t)lround(x)); else if (n == "erf") r = erf(x); else throw EngineError{"math " + n};
    return conc(toBits(r, w)); }
  if (!cfg.real) { if (n == "floor") return symI(fpOp(FpFloor, {asBV(a[0], w)}, w), w); if (n == "ceil") return symI(fpOp(FpCeil, {asBV(a[0], w)}, w), w); if (n == "trunc") return symI(fpOp(FpTrunc, {asBV(a[0], w)}, w), w); throw EngineError{"math in fp mode: " + n}; }
  E x = asReal(a[0], w);
  if (n == "floor") return realV(aFloor(x, 0), w); if (n == "ceil") return realV(aNeg(aFloor(aNeg(x), 0)), w); if (n == "trunc") return realV(truncR(S, x, 0), w);
  if (n == "round" || n == "lround") { E h = aConst(mpq_class(1, 2), SReal); E r = decide(S, aLt(x, aConst(0, SReal))) ? aNeg(aFloor(aAdd(aNeg(x), h), n == "lround" ? 63 : 0)) : aFloor(aAdd(x, h), n == "lround" ? 63 : 0); return n == "lround" ? symI(r, 64) : realV(r, w); }
  if (n == "hypot") { Val s = realV(aAdd(aMul(x, x), aMul(asReal(a[1], w), asReal(a[1], w))), w); return sqrtV(S, s, w); }
  if (n == "copysign") { E ax = aIte(aLt(x, aConst(0, SReal)), aNeg(x), x); if (a[1].t == VConc) return realV(std::signbit(fpOf(a[1].c, w)) ? aNeg(ax) : ax, w); return realV(aIte(aLt(asReal(a[1], w), aConst(0, SReal)), aNeg(ax), ax), w); }
  if (n == "pow" && a[1].t == VConc && fpOf(a[1].c, w) == 1.0 / 3.0) { if (decide(S, aLt(x, aConst(0, SReal)))) return conc(toBits(NAN, w)); assumptions.insert("pow(x, 1.0/3.0) is the exact cube root"); return cbrtV(S, a[0], w); }
  if (n == "cos") { E u; int k; if (thirdAngle(x, u, k)) { assumptions.insert("cos(acos(u)/3 + 2 pi k/3) is the k-th root of 4c^3-3c=u"); E c = aVar("acos3!" + std::to_string(u->id), SReal); E one_ = aConst(1, SReal); E def = aEq(aSub(aScale(aMul(aMul(c, c), c), 4), aScale(c, 3)), u); if (!S.pcset.count(def)) { addPC(S, def); addPC(S, aLe(aConst(mpq_class(1, 2), SReal), c)); addPC(S, aLe(c, one_)); } if (k == 0) return realV(c, w); Val sq = sqrtV(S, realV(aSub(one_, aMul(c, c)), w), w), q3 = sqrtV(S, conc(toBits(3.0, w)), w); E m = aScale(aMul(asReal(sq, w), asReal(q3, w)), mpq_class(1, 2)), h = aScale(c, mpq_class(-1, 2)); return realV(k == 1 ? aSub(h, m) : aAdd(h, m), w); } }
  if (n == "exp") { E u; if (halfLog(x, u)) { assumptions.insert("exp(log(u)/2) is the exact square root"); return sqrtV(S, realV(u, w), w); } }
  if (n == "log2" || n == "exp2") { mpq_class q0; if (!aIsConst(x, q0)) { ensureModel(S); if (S.model) { Evaluator ev(*S.model); mpq_class q = ev.eval(x); if (ev.ok) { E eq = aEq(x, aConst(q, SReal)); std::vector<E> sl; slice(S.pc, eq, sl); sl.push_back(mkNot(eq)); Model m; bool ex; if (solve(sl, &m, &ex) == UNSAT) x = aConst(q, SReal); } } } }
  if (n == "exp" || n == "log" || n == "exp2" || n == "log2" || n == "log10") { mpq_class q; if (aIsConst(x, q)) { double d = q.get_d(); assumptions.insert(n + " of a constant is the C library's value"); return conc(toBits(n == "exp" ? exp(d) : n == "log" ? log(d) : n == "exp2" ? exp2(d) : n == "log2" ? log2(d) : log10(d), w)); } }
  if (n == "acos") { if (!decide(S, mkAnd(aLe(aConst(-1, SReal), x), aLe(x, aConst(1, SReal))))) return conc(toBits(NAN, w)); }
  if (n == "sin" || n == "cos") { E s = aUF("sin", {x}), c = aUF("cos", {x}); E id = aEq(aAdd(aMul(s, s), aMul(c, c)), aConst(1, SReal)); if (!S.pcset.count(id)) addPC(S, id); assumptions.insert("sin/cos are uninterpreted up to sin^2+cos^2=1"); return realV(n == "sin" ? s : c, w); }
  std::vector<E> args; for (auto &v : a) args.push_back(asReal(v, w)); E r = aUF(n, args); assumptions.insert(n + " is uninterpreted"); if (n == "exp") { E p = aLt(aConst(0, SReal), r); if (!S.pcset.count(p)) addPC(S, p); } return realV(r, w);
}
static Val llvmIntr(State &S, const PI &p, const std::string &n, std::vector<Val> &a) {
  unsigned w = p.w; auto is = [&](const char *x) { return starts(n, x); };
  Type *rt = p.I->getType();
  if (is("llvm.expect") || is("llvm.launder") || is("llvm.strip.inv") || is("llvm.ptr.annotation") || is("llvm.threadlocal.address") || is("llvm.ssa.copy")) return a[0];
  if (is("llvm.objectsize")) return conc(~0ull); if (is("llvm.is.constant")) return conc(a[0].t == VConc); if (is("llvm.stacksave")) return conc(0);
  auto sel = [&](unsigned pred) -> Val { Val c = icmp(S, pred, a[0], a[1], w); { bool kv; if (c.t != VConc && known(S, asBool(c), kv)) c = conc(kv); } if (c.t == VConc) return c.c ? a[0] : a[1]; Val r; if (!mergeVal(asBool(c), a[0], a[1], w, r)) throw EngineError{"minmax"}; return r; };
  if (rt->isVectorTy() && !is("llvm.vector")) { auto *vt = cast<FixedVectorType>(rt); Agg g; PI q = p; q.w = typeBits(vt->getElementType()); (void)q; throw EngineError{"vector intrinsic " + n}; }
  if (is("llvm.umax")) return sel(CmpInst::ICMP_UGT); if (is("llvm.umin")) return sel(CmpInst::ICMP_ULT); if (is("llvm.smax")) return sel(CmpInst::ICMP_SGT); if (is("llvm.smin")) return sel(CmpInst::ICMP_SLT);
  if (is("llvm.abs")) { Val z = conc(0); Val c = icmp(S, CmpInst::ICMP_SLT, a[0], z, w); Val ng = intBin(S, Instruction::Sub, z, a[0], w); if (c.t == VConc) return c.c ? ng : a[0]; Val r; mergeVal(asBool(c), ng, a[0], w, r); return r; }
  if (is("llvm.sadd.with.overflow") || is("llvm.ssub.with.overflow") || is("llvm.smul.with.overflow") || is("llvm.uadd.with.overflow") || is("llvm.usub.with.overflow") || is("llvm.umul.with.overflow")) {
    unsigned iw = cast<StructType>(rt)->getElementType(0)->getIntegerBitWidth(); bool sg = n[5] == 's'; unsigned op = n.substr(6, 3) == "add" ? Instruction::Add : n.substr(6, 3) == "sub" ? Instruction::Sub : Instruction::Mul;
    Val r = intBin(S, op, a[0], a[1], iw); Val ov;
    if (isIntSort(a[0]) || isIntSort(a[1])) { E x = sg ? asInt(a[0], iw) : asUInt(a[0], iw), y = sg ? asInt(a[1], iw) : asUInt(a[1], iw); E f = op == Instruction::Add ? aAdd(x, y) : op == Instruction::Sub ? aSub(x, y) : aMul(x, y); mpz_class H = mpz_class(1) << (sg ? iw - 1 : iw); E lo = aConst(sg ? mpq_class(-H) : mpq_class(0), SInt), hi = aConst(mpq_class(H), SInt); ov = symI(mkNot(mkAnd(aLe(lo, f), aLt(f, hi))), 1); }
    else { E x = asBV(a[0], iw), y = asBV(a[1], iw); unsigned ww = iw * 2; E X = sg ? bvSExt(x, ww) : bvZExt(x, ww), Y = sg ? bvSExt(y, ww) : bvZExt(y, ww); E f = op == Instruction::Add ? bvAdd(X, Y) : op == Instruction::Sub ? bvSub(X, Y) : bvBin(KBvMul, X, Y); E lowp = bvExtract(f, 0, iw); ov = symI(mkNot(bvEq(f, sg ? bvSExt(lowp, ww) : bvZExt(lowp, ww))), 1); }
    return aggv({r, ov}); }
  if (is("llvm.usub.sat")) { Val c = icmp(S, CmpInst::ICMP_ULT, a[0], a[1], w); Val d = intBin(S, Instruction::Sub, a[0], a[1], w); if (c.t == VConc) return c.c ? conc(0) : d; Val r; mergeVal(asBool(c), conc(0), d, w, r); return r; }
  if (is("llvm.uadd.sat")) { Val s = intBin(S, Instruction::Add, a[0], a[1], w); Val c = icmp(S, CmpInst::ICMP_ULT, s, a[0], w); if (c.t == VConc) return c.c ? conc(maskw(w)) : s; Val r; mergeVal(asBool(c), conc(maskw(w)), s, w, r); return r; }
  if (is("llvm.fabs")) return fabsV(a[0], w); if (is("llvm.sqrt")) return sqrtV(S, a[0], w); if (is("llvm.fmuladd") || is("llvm.fma.")) { Val m = fbin(S, Instruction::FMul, a[0], a[1], w); return fbin(S, Instruction::FAdd, m, a[2], w); }
  static const std::map<std::string, std::string> mm = {{"floor", "floor"}, {"ceil", "ceil"}, {"trunc", "trunc"}, {"round", "round"}, {"rint", "rint"}, {"nearbyint", "rint"}, {"pow", "pow"}, {"exp", "exp"}, {"exp2", "exp2"}, {"log", "log"}, {"log2", "log2"}, {"log10", "log10"}, {"sin", "sin"}, {"cos", "cos"}, {"minnum", "fmin"}, {"maxnum", "fmax"}, {"copysign", "copysign"}};
  { std::string m = n.substr(5); m = m.substr(0, m.find('.')); auto it = mm.find(m); if (it != mm.end()) return mathCall(S, it->second, a, w); if (m == "powi") { std::vector<Val> b = {a[0], conc(toBits((double)(int)a[1].c, w))}; return mathCall(S, "pow", b, w); } }
  if (is("llvm.is.fpclass")) { unsigned fw = typeBits(cast<CallBase>(p.I)->getArgOperand(0)->getType()); unsigned m = a[1].c; if (a[0].t == VConc) { double x = fpOf(a[0].c, fw); bool s = std::signbit(x); int c = std::fpclassify(x); unsigned bit = c == FP_NAN ? 3 : c == FP_INFINITE ? (s ? 4 : 0x200) : c == FP_NORMAL ? (s ? 8 : 0x100) : c == FP_SUBNORMAL ? (s ? 16 : 0x80) : (s ? 0x20 : 0x40); return conc((m & bit) != 0); }
    if (cfg.real) { if ((m & 0x1f8) == 0) return conc(0); if ((m & 0x1f8) == 0x1f8) return conc(1); throw EngineError{"fpclass"}; }
    E x = asBV(a[0], fw); E nan = fpCmp(8, x, x); E ax = fpOp(FpAbs, {x}, fw); E inf = bvEq(ax, bvConst(fw == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, fw)); if (m == 3) return symI(nan, 1); if (m == 0x204) return symI(inf, 1); if (m == 0x207) return symI(mkOr(nan, inf), 1); if (m == 0x1f8) return symI(mkNot(mkOr(nan, inf)), 1); throw EngineError{"fpclass mask"}; }
  if (a.size() && a[0].t == VConc) { uint64_t x = a[0].c & maskw(w);
    if (is("llvm.ctpop")) return conc(__builtin_popcountll(x)); if (is("llvm.ctlz")) return conc(x ? __builtin_clzll(x) - (64 - w) : w); if (is("llvm.cttz")) return conc(x ? __builtin_ctzll(x) : w);
    if (is("llvm.bswap")) return conc(__builtin_bswap64(x) >> (64 - w)); if (is("llvm.fshl") && a[1].t == VConc && a[2].t == VConc) { unsigned k = a[2].c % w; uint64_t y = a[1].c & maskw(w); return conc(k ? ((x << k) | (y >> (w - k))) & maskw(w) : x); } }
  if (is("llvm.fshl")) { E x = asBV(a[0], w), y = asBV(a[1], w); if (a[2].t == VConc) { unsigned k = a[2].c % w; if (!k) return a[0]; return symI(bvExtract(bvConcat(x, y), w - k, w), w); } }
  if (is("llvm.ctlz") || is("llvm.cttz") || is("llvm.ctpop")) { E x = asBV(a[0], w); E r = bvConst(is("llvm.ctpop") ? 0 : w, w); if (is("llvm.ctpop")) { for (unsigned i = 0; i < w; i++) r = bvAdd(r, bvZExt(bvExtract(x, i, 1), w)); } else if (is("llvm.ctlz")) { for (unsigned i = 0; i < w; i++) r = bvIte(bvEq(bvExtract(x, i, 1), bvConst(1, 1)), bvConst(w - 1 - i, w), r); } else for (int i = w - 1; i >= 0; i--) r = bvIte(bvEq(bvExtract(x, i, 1), bvConst(1, 1)), bvConst(i, w), r); return symI(r, w); }
  if (is("llvm.fptosi.sat") || is("llvm.fptoui.sat")) { unsigned fw = typeBits(cast<CallBase>(p.I)->getArgOperand(0)->getType()); return fptoi(S, a[0], fw, w, n[11] == 's'); }
  throw EngineError{"intrinsic " + n};
}
static const std::map<std::string, const Function*> &overrides();
// returns true if control was transferred (frame pushed / state parked)
static bool doCall(State *SP, const PI &p) {
  State &S = *SP; Frame &f = S.fr.back(); std::vector<Val> a; size_t na = p.callee ? p.o.size() : p.o.size() - 1; a.reserve(na); for (size_t i = 0; i < na; i++) a.push_back(get(f, p.o[i]));
  const Function *F = p.callee; int code = p.intr;
  if (!F) { if (isa<InlineAsm>(cast<CallBase>(p.I)->getCalledOperand())) { if (p.dst >= 0) f.r[p.dst] = conc(0); f.pc++; return false; }
    Val fv = get(f, p.o.back()); if (fv.t != VConc) fv = conc(concretize(S, fv, 64)); F = funcAt(fv.c); if (!F) memError(S, "call through invalid pointer"); code = intrinsicCode(F); }
  if (code == I_NONE) { pushFrame(S, F, a); return false; }
  Val r; auto fin = [&](Val v) { Frame &ff = S.fr.back(); if (p.dst >= 0) ff.r[p.dst] = v; afterCall(S); };
  switch (code) {
  case I_NOP: fin(conc(0)); break; case I_STUB0: fin(conc(0)); break; case I_STUBTHIS: fin(a.empty() ? conc(0) : a[0]); break;
  case I_MALLOC: case I_NEW: { uint64_t n = a[0].t == VConc ? a[0].c : concretize(S, a[0], 64); if (n > (1ull << 40)) { violation(S, "memory", "allocation of absurd size", nullptr); throw PathEnd{"alloc"}; } fin(conc(allocObj(S, n, false, F->getName().str()))); break; }
  case I_CALLOC: { uint64_t n = concretize(S, a[0], 64), m = concretize(S, a[1], 64); fin(conc(allocObj(S, n * m, false, "calloc", true))); break; }
  case I_REALLOC: { uint64_t n = concretize(S, a[1], 64); uint64_t na2 = allocObj(S, n, false, "realloc"); if (a[0].c) { const Object *o = S.mem.get(a[0].c); if (!o) memError(S, "realloc of invalid pointer"); copyMem(S, conc(na2), a[0], std::min<uint64_t>(n, o->size)); freeObj(S, a[0].c); } fin(conc(na2)); break; }
  case I_FREE: { Val q = a[0]; if (q.t != VConc) q = conc(concretize(S, q, 64)); if (q.c) { const Object *o = S.mem.get(q.c); if (!o || (q.c & ((1u << OFFB) - 1))) memError(S, "free of invalid pointer"); freeObj(S, q.c); } fin(conc(0)); break; }
  case I_MEMCPY: { uint64_t n = a[2].t == VConc ? a[2].c : concretize(S, a[2], 64); copyMem(S, a[0], a[1], n); fin(a[0]); break; }
  case I_MEMSET: { uint64_t n = a[2].t == VConc ? a[2].c : concretize(S, a[2], 64); if (n) { Val d = a[0]; if (d.t != VConc) d = conc(concretize(S, d, 64)); Ref R = resolve(S, d, n, true); Object *o = S.mem.getW(R.addr); if (a[1].t == VConc) { clearRange(*o, R.off, n); memset(&o->d[R.off], (int)a[1].c, n); memset(&o->st[R.off], 0, n); } else for (uint64_t i = 0; i < n; i++) storeRaw(*o, R.off + i, 1, symI(bvExtract(asBV(a[1], 32), 0, 8), 8)); } fin(a[0]); break; }
  case I_ABORT: violation(S, "abort", "abort/terminate reached", nullptr); throw PathEnd{"abort"};
  case I_EXIT: violation(S, "abort", "exit() called", nullptr); throw PathEnd{"exit"};
  case I_ASSERTFAIL: violation(S, "abort", "assertion " + cstr(S, a[0]), nullptr); throw PathEnd{"assert"};
  case I_ALLOCEXC: fin(conc(allocObj(S, a[0].c, false, "exception"))); break;
  case I_THROW: { S.exc = a[0]; S.excType = a[1].c; std::string tn = "?"; for (auto &g : gaddr) if (g.second == a[1].c) tn = g.first->getName().str(); checkUncaught(S, tn); unwind(S); break; }
  case I_THROWSTD: { S.exc = conc(allocObj(S, 64, false, "exception", true)); S.excType = 1; checkUncaught(S, iname[F]); unwind(S); break; }
  case I_RETHROW: unwind(S); break;
  case I_BEGINCATCH: fin(S.exc); break;
  case I_TYPEID: fin(conc((a[0].c >> OFFB) & 0x7fffffff)); break;
  case I_GUARD: { Val v = loadScalar(S, a[0], 1, false, 8); bool first = v.t == VConc && v.c == 0; if (first) storeScalar(S, a[0], 1, conc(1), 8); fin(conc(first)); break; }
  case I_MATH: { unsigned w = typeBits(cast<CallBase>(p.I)->getArgOperand(0)->getType()); r = mathCall(S, iname[F], a, w); fin(r); break; }
  case I_LLVM: r = llvmIntr(S, p, iname[F], a); fin(r); break;
  case I_VE: { const std::string &n = iname[F];
    if (n == "ve_merge_end") { fin(Val()); if (S.groups.empty() || !S.groups.back()->explicitG) throw EngineError{"merge_end without begin"}; park(SP); return true; }
    r = veCall(S, n, a); if (p.dst >= 0 && p.w == 64 && p.isF == false && r.t == VSym && r.e->s == SBV && r.e->w != 64) r = symI(bvZExt(r.e, 64), 64); fin(r); break; }
  default: throw EngineError{"unsupported external function " + demangle(F->getName().str())};
  }
  return false;
}
static Val castVal(State &S, const PI &p, const Val &a, Type *st0, Type *dt) {
  unsigned sw = typeBits(st0), dw = typeBits(dt);
  switch (p.op) {
  case Instruction::Trunc: if (a.t == VConc) return conc(a.c & maskw(dw)); if (dw == 1) return symI(asBool(a), 1); if (isIntSort(a)) return symI(wrapI(a.e, dw), dw); return symI(bvExtract(asBV(a, sw), 0, dw), dw);
  case Instruction::ZExt: if (a.t == VConc && dw <= 64) return conc(a.c & maskw(sw)); if (a.t == VSym && a.e->s == SBool) return symI(bvIte(a.e, bvConst(1, dw), bvConst(0, dw)), dw); if (isIntSort(a)) return symI(asUInt(a, sw), dw); return symI(bvZExt(asBV(a, sw), dw), dw);
  case Instruction::SExt: if (a.t == VConc && dw <= 64) return conc((uint64_t)sx(a.c, sw) & maskw(dw)); if (a.t == VSym && a.e->s == SBool) return symI(bvIte(a.e, bvConst(~0ull, dw), bvConst(0, dw)), dw); if (isIntSort(a)) return a; return symI(bvSExt(asBV(a, sw), dw), dw);
  case Instruction::PtrToInt: case Instruction::IntToPtr: if (sw == dw) return a; if (a.t == VConc) return conc(a.c & maskw(dw)); if (sw > dw) return symI(bvExtract(asBV(a, sw), 0, dw), dw); return symI(bvZExt(asBV(a, sw), dw), dw);
  case Instruction::FPTrunc: case Instruction::FPExt: if (a.t == VConc) { if (p.op == Instruction::FPExt) return conc(bOf(fOf(a.c))); double d = dOf(a.c); if (!cfg.real || !std::isfinite(d)) return conc(bOff((float)d)); return realV(aConst(mpq_class(d), SReal), 32); } if (cfg.real) { assumptions.insert("float<->double conversions are exact"); return a.t == VReal ? realV(a.e, dw) : realV(asReal(a, sw), dw); } return symI(fpOp(FpCvt, {asBV(a, sw)}, dw), dw);
  case Instruction::FPToSI: return fptoi(S, a, sw, dw, true); case Instruction::FPToUI: return fptoi(S, a, sw, dw, false);
  case Instruction::SIToFP: return itofp(a, sw, dw, true); case Instruction::UIToFP: return itofp(a, sw, dw, false);
  case Instruction::BitCast: if (cfg.real && isFPTy(dt) && a.t == VSym) return realV(asReal(a, dw), dw); return a;
  }
  throw EngineError{"cast"};
}
static uint64_t execInst(State *SP);
// run one instruction. returns: 0 continue, 1 state gone from this worker (parked), 2 state finished
static int step(State *SP) {
  State &S = *SP; Frame &f = S.fr.back(); const PI &p = f.f->ins[f.pc]; const Instruction *I = p.I;
  switch (p.op) {
  case Instruction::Br:
    if (p.t1 < 0) { gotoBlock(S, p.t0); return arrive(SP) ? 1 : 0; }
    else { Val c = get(f, p.o[0]); bool b;
      if (c.t == VConc) b = c.c & 1; else { E e = asBool(c); bool kv; if (known(S, e, kv)) b = kv; else if (S.automerge) { auto g = std::make_shared<Group>(); g->depth = S.fr.size(); g->block = ipdomOf(f.f, f.block); g->id = nextGroup++; S.groups.push_back(g); uint64_t before = st.forks; b = decide(S, e); if (st.forks == before) S.groups.pop_back(); } else b = decide(S, e); }
      gotoBlock(S, b ? p.t0 : p.t1); return arrive(SP) ? 1 : 0; }
  case Instruction::Switch: { auto *sw = cast<SwitchInst>(I); Val c = get(f, p.o[0]); unsigned w = typeBits(sw->getCondition()->getType()); const BasicBlock *t = nullptr;
      if (c.t == VConc) { t = sw->getDefaultDest(); for (auto &k : sw->cases()) if (k.getCaseValue()->getZExtValue() == (c.c & maskw(w))) { t = k.getCaseSuccessor(); break; } }
      else { for (auto &k : sw->cases()) { Val e = icmp(S, CmpInst::ICMP_EQ, c, conc(k.getCaseValue()->getZExtValue()), w); bool b; if (e.t == VConc) b = e.c; else { bool kv; E ee = asBool(e); if (known(S, ee, kv)) b = kv; else if (S.automerge) { auto g = std::make_shared<Group>(); g->depth = S.fr.size(); g->block = ipdomOf(f.f, f.block); g->id = nextGroup++; S.groups.push_back(g); uint64_t before = st.forks; b = decide(S, ee); if (st.forks == before) S.groups.pop_back(); } else b = decide(S, ee); } if (b) { t = k.getCaseSuccessor(); break; } } if (!t) t = sw->getDefaultDest(); }
      gotoBlock(S, blockIdx(f.f, t)); return arrive(SP) ? 1 : 0; }
  case Instruction::Ret: { Val v; if (!p.o.empty()) v = get(f, p.o[0]); popFrame(S); if (S.fr.empty()) return 2; Frame &c = S.fr.back(); const PI &cp = c.f->ins[c.pc]; if (cp.dst >= 0) c.r[cp.dst] = v; afterCall(S); return arrive(SP) ? 1 : 0; }
  case Instruction::Unreachable: violation(S, "abort", "unreachable code reached", nullptr); throw PathEnd{"unreachable"};
  case Instruction::Call: case Instruction::Invoke: { if (p.intr == I_NOP && p.o.empty() && p.op == Instruction::Call) { f.pc++; return 0; } bool inv = p.op == Instruction::Invoke; if (doCall(SP, p)) return 1; if (inv || true) return arrive(SP) ? 1 : 0; return 0; }
  case Instruction::LandingPad: { auto *lp = cast<LandingPadInst>(I); int64_t sel = -1; for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) if (lp->isCatch(i)) { Val cv = constVal(lp->getClause(i)); if (cv.c == 0) sel = 0x7ffffffe; else { uint64_t t = S.excType; for (int d = 0; d < 8 && sel < 0; d++) { if (t == cv.c) { sel = (cv.c >> OFFB) & 0x7fffffff; break; } if (t == 1) { std::string nm; for (auto &g : gaddr) if (g.second == cv.c) nm = g.first->getName().str(); if (starts(nm, "_ZTISt")) sel = (cv.c >> OFFB) & 0x7fffffff; break; } const Object *o = S.mem.get(t); if (!o || o->size < 24 || o->opaque) break; uint64_t nb; memcpy(&nb, &o->d[16], 8); t = nb; } } }
      if (sel < 0) { if (!lp->isCleanup() ) sel = 0; else sel = 0; } f.r[p.dst] = aggv({S.exc, conc(sel)}); f.pc++; return 0; }
  case Instruction::Resume: { popFrame(S); if (S.fr.empty()) throw PathEnd{"exception"}; unwind(S); return arrive(SP) ? 1 : 0; }
  default: break;
  }
  Val r;
  auto V = [&](int i) { return get(f, p.o[i]); };
  Type *t = I->getType();
  switch (p.op) {
  case Instruction::Alloca: { Val n = V(0); uint64_t cnt = n.t == VConc ? n.c : concretize(S, n, 64); uint64_t a = allocObj(S, p.sz * cnt, true, "alloca in " + f.f->dem.substr(0, 60)); S.fr.back().allocas.push_back(a); r = conc(a); break; }
  case Instruction::Load: r = loadType(S, V(0), t); break;
  case Instruction::Store: storeType(S, V(1), V(0), I->getOperand(0)->getType()); break;
  case Instruction::GetElementPtr: {
    if (p.intr == -1) throw EngineError{"vector gep"};
    r = V(0); int64_t off = p.base; E so = nullptr; bool anyI = isIntSort(r); std::vector<std::pair<int64_t, Val>> sy;
    for (auto &s : p.scale) { Val x = V(s.second); unsigned w = typeBits(I->getOperand(1)->getType()); (void)w; if (x.t == VConc) { unsigned iw = 64; for (unsigned k = 1; k < I->getNumOperands(); k++) iw = std::max(0u, typeBits(I->getOperand(k)->getType())); off += s.first * sx(x.c, iw); } else { sy.push_back({s.first, x}); if (isIntSort(x)) anyI = true; } }
    (void)so;
    if (sy.empty()) { r = ptrAdd(r, off); break; }
    if (anyI) { E e = aAdd(asInt(r, 64), aConst(mpq_class(mpz_class((long)off)), SInt)); for (auto &q : sy) { unsigned iw = q.second.e->s == SBV ? q.second.e->w : 64; e = aAdd(e, aScale(asInt(q.second, iw), mpq_class(mpz_class((long)q.first)))); } r = symI(wrapI(e, 64), 64); }
    else { E e = bvAdd(asBV(r, 64), bvConst((uint64_t)off, 64)); for (auto &q : sy) { E x = q.second.e->s == SBool ? bvIte(q.second.e, bvConst(~0ull, 64), bvConst(0, 64)) : q.second.e; e = bvAdd(e, bvBin(KBvMul, bvSExt(x, 64), bvConst((uint64_t)q.first, 64))); } r = symI(e, 64); }
    break; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    if (t->isVectorTy()) { Val a = V(0), b = V(1); Agg g; unsigned w = typeBits(t->getScalarType()); for (size_t i = 0; i < a.g->size(); i++) g.push_back(intBin(S, p.op, (*a.g)[i], (*b.g)[i], w)); r = aggv(g); break; }
    if (p.op == Instruction::Or && cast<PossiblyDisjointInst>(I)->isDisjoint() && (isIntSort(V(0)) || isIntSort(V(1)))) { r = intBin(S, Instruction::Add, V(0), V(1), p.w); break; }
    r = intBin(S, p.op, V(0), V(1), p.w); break;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    if (t->isVectorTy()) { Val a = V(0), b = V(1); Agg g; unsigned w = typeBits(t->getScalarType()); for (size_t i = 0; i < a.g->size(); i++) g.push_back(fbin(S, p.op, (*a.g)[i], (*b.g)[i], w)); r = aggv(g); break; }
    if (t->isX86_FP80Ty()) throw EngineError{"long double"};
    r = fbin(S, p.op, V(0), V(1), p.w); break;
  case Instruction::FNeg: if (t->isVectorTy()) { Val a = V(0); Agg g; unsigned w = typeBits(t->getScalarType()); for (auto &x : *a.g) g.push_back(fnegV(x, w)); r = aggv(g); break; } r = fnegV(V(0), p.w); break;
  case Instruction::ICmp: { Type *ot = I->getOperand(0)->getType(); if (ot->isVectorTy()) { Val a = V(0), b = V(1); Agg g; for (size_t i = 0; i < a.g->size(); i++) g.push_back(icmp(S, cast<CmpInst>(I)->getPredicate(), (*a.g)[i], (*b.g)[i], p.w)); r = aggv(g); break; } r = icmp(S, cast<CmpInst>(I)->getPredicate(), V(0), V(1), p.w); bool kv; if (r.t == VSym && known(S, asBool(r), kv)) r = conc(kv); break; }
  case Instruction::FCmp: { Type *ot = I->getOperand(0)->getType(); if (ot->isVectorTy()) { Val a = V(0), b = V(1); Agg g; for (size_t i = 0; i < a.g->size(); i++) g.push_back(fcmp(S, cast<CmpInst>(I)->getPredicate(), (*a.g)[i], (*b.g)[i], p.w)); r = aggv(g); break; } if (ot->isX86_FP80Ty()) throw EngineError{"long double"}; r = fcmp(S, cast<CmpInst>(I)->getPredicate(), V(0), V(1), p.w); bool kv; if (r.t == VSym && known(S, asBool(r), kv)) r = conc(kv); break; }
  case Instruction::Select: { Val c = V(0), a = V(1), b = V(2);
      if (c.t == VAgg) { Agg g; for (size_t i = 0; i < a.g->size(); i++) { Val x; const Val &ci = (*c.g)[i]; if (ci.t == VConc) x = ci.c & 1 ? (*a.g)[i] : (*b.g)[i]; else if (!mergeVal(asBool(ci), (*a.g)[i], (*b.g)[i], typeBits(t->getScalarType()), x)) throw EngineError{"vector select"}; g.push_back(x); } r = aggv(g); break; }
      if (c.t == VConc) { r = c.c & 1 ? a : b; break; }
      E e = asBool(c); bool kv; if (known(S, e, kv)) { r = kv ? a : b; break; }
      unsigned w = p.w; bool ok = !(cfg.real && isFPTy(t) && (isSpecial(a, w) || isSpecial(b, w)));
      if (ok) { if (cfg.real && isFPTy(t)) { r = realV(aIte(e, asReal(a, w), asReal(b, w)), w); } else ok = mergeVal(e, a, b, t->isSingleValueType() ? w : 64, r); }
      if (!ok) r = decide(S, e) ? a : b;
      break; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::BitCast: {
      Type *ot = I->getOperand(0)->getType();
      if (p.op == Instruction::BitCast && (ot->isVectorTy() || t->isVectorTy())) { uint64_t a = allocObj(S, DL->getTypeStoreSize(t), true, "bitcast"); storeType(S, conc(a), V(0), ot); r = loadType(S, conc(a), t); freeObj(S, a); auto &tt = S.mem.tabW(keyClass(a)); if (tt.next == keyCnt(a) + 1) tt.next--; break; }
      if (t->isVectorTy()) { Val a = V(0); Agg g; for (auto &x : *a.g) g.push_back(castVal(S, p, x, ot->getScalarType(), t->getScalarType())); r = aggv(g); break; }
      if (t->isX86_FP80Ty() || ot->isX86_FP80Ty()) throw EngineError{"long double"};
      r = castVal(S, p, V(0), ot, t); break; }
  case Instruction::ExtractValue: { r = V(0); for (unsigned i : cast<ExtractValueInst>(I)->getIndices()) { Val x = (*r.g)[i]; r = x; } break; }
  case Instruction::InsertValue: { Val a = V(0), b = V(1); auto idx = cast<InsertValueInst>(I)->getIndices(); std::function<Val(const Val&, unsigned)> ins = [&](const Val &x, unsigned d) -> Val { if (d == idx.size()) return b; Agg g = *x.g; g[idx[d]] = ins(g[idx[d]], d + 1); return aggv(g); }; r = ins(a, 0); break; }
  case Instruction::ExtractElement: { Val a = V(0), i = V(1); if (i.t != VConc) i = conc(concretize(S, i, 64)); r = (*a.g)[i.c]; break; }
  case Instruction::InsertElement: { Val a = V(0), i = V(2); if (i.t != VConc) i = conc(concretize(S, i, 64)); Agg g = *a.g; g[i.c] = V(1); r = aggv(g); break; }
  case Instruction::ShuffleVector: { Val a = V(0), b = V(1); auto *sv = cast<ShuffleVectorInst>(I); Agg g; int n = a.g->size(); for (int m : sv->getShuffleMask()) g.push_back(m < 0 ? conc(0) : m < n ? (*a.g)[m] : (*b.g)[m - n]); r = aggv(g); break; }
  case Instruction::Freeze: r = V(0); break;
  case Instruction::Fence: break;
  case Instruction::AtomicRMW: { auto *rm = cast<AtomicRMWInst>(I); unsigned w = p.w; Val old = loadType(S, V(0), t), x = V(1), nv; switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = intBin(S, Instruction::Add, old, x, w); break; case AtomicRMWInst::Sub: nv = intBin(S, Instruction::Sub, old, x, w); break; case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Or: nv = intBin(S, Instruction::Or, old, x, w); break; case AtomicRMWInst::And: nv = intBin(S, Instruction::And, old, x, w); break; default: throw EngineError{"atomicrmw"}; } storeType(S, V(0), nv, t); r = old; break; }
  case Instruction::AtomicCmpXchg: { auto *cx = cast<AtomicCmpXchgInst>(I); Type *vt = cx->getCompareOperand()->getType(); Val old = loadType(S, V(0), vt); Val c = icmp(S, CmpInst::ICMP_EQ, old, V(1), typeBits(vt)); bool eq = c.t == VConc ? c.c & 1 : decide(S, asBool(c)); if (eq) storeType(S, V(0), V(2), vt); r = aggv({old, conc(eq)}); break; }
  case Instruction::VAArg: default: { std::string s; raw_string_ostream o(s); I->print(o); throw EngineError{"instruction " + s}; }
  }
  Frame &f2 = S.fr.back(); if (p.dst >= 0) f2.r[p.dst] = r; f2.pc++;
  return 0;
}
// ---------------------------------------------------------------- driver
static void initGlobals(State &S) {
  uint32_t n = 1;
  for (auto &g : M->globals()) { gaddr[&g] = mkAddr(CLS_GLOBAL, n++); }
  for (auto &F : *M) funcAddr(&F);
  for (auto &g : M->globals()) { uint64_t a = gaddr[&g]; uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; auto o = std::make_shared<Object>(); o->name = g.getName().str(); bool ext = g.isDeclaration(); if (ext) { sz = std::max<uint64_t>(sz, 1024); o->opaque = true; } if (sz >= (1u << OFFB)) { fprintf(stderr, "global too large %s\n", o->name.c_str()); exit(3); } o->size = sz; o->d.assign(sz, 0); o->st.assign(sz, 0); *S.mem.slotW(CLS_GLOBAL, keyCnt(a)) = o; }
  S.mem.tabW(CLS_GLOBAL).next = n;
  for (auto &g : M->globals()) if (g.hasInitializer() && !g.getInitializer()->isNullValue()) { uint64_t a = gaddr[&g]; std::function<void(const Constant*, uint64_t)> wr = [&](const Constant *c, uint64_t at) { Type *t = c->getType(); if (c->isNullValue() || isa<UndefValue>(c)) return; if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) wr(s->getOperand(i), at + L->getElementOffset(i)); return; } if (auto *ar = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ar->getType()->getElementType()); for (unsigned i = 0; i < ar->getNumOperands(); i++) wr(ar->getOperand(i), at + i * es); return; } if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = cd->getRawDataValues(); Object *o = S.mem.getW(at); memcpy(&o->d[at & ((1u << OFFB) - 1)], raw.data(), raw.size()); return; } if (t->isX86_FP80Ty()) return; Val v = constVal(c); if (v.t == VAgg) { storeType(S, conc(at), v, t); return; } storeRaw(*S.mem.getW(at), at & ((1u << OFFB) - 1), DL->getTypeStoreSize(t), v); }; try { wr(g.getInitializer(), a); } catch (EngineError &e) { if (cfg.verbose) fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), e.msg.c_str()); } }
  for (auto &g : M->globals()) if (g.isConstant() && !g.isDeclaration()) S.mem.getW(gaddr[&g])->ro = true;
  // the standard streams: enough of their representation for code inlined from <ostream>
  for (const char *n : {"_ZSt4cerr", "_ZSt4cout", "_ZSt4clog"}) if (auto *g = M->getGlobalVariable(n)) if (g->isDeclaration()) { uint64_t vt = allocObj(S, 64, false, "stream table", true), ct = allocObj(S, 1024, false, "ctype", true), a = gaddr[g]; storeScalar(S, conc(a), 8, conc(vt + 24), 64); storeScalar(S, conc(ct + 56), 1, conc(1), 8); storeScalar(S, conc(a + 240), 8, conc(ct), 64); }
}
static bool deadline() { return nowS() - T0 > cfg.maxTime; }
// run a state until it leaves; returns 2 if finished normally
static void runState(State *S, bool isCtor = false) {
  uint64_t cnt = 0;
  while (true) {
    int rc; bool again = false;
    if ((++cnt & 0x3ff) == 0 && deadline()) { incomplete("time limit"); terminate(S); return; }
    st.steps++; if (++S->steps > cfg.pathSteps) { incomplete("path step limit"); terminate(S); return; }
    try { rc = step(S); }
    catch (Forked &) { rc = 0; again = true; }
    catch (PathEnd &e) { st.killed++; if (cfg.verbose && e.why != "assume") fprintf(stderr, "path end: %s\n", e.why.c_str()); terminate(S); return; }
    catch (EngineError &e) { incomplete("engine: " + e.msg + " at " + where(*S)); terminate(S); return; }
    (void)again;
    if (rc == 0) continue; if (rc == 1) return;
    if (isCtor) return;
    st.ended++; if ((int)samples.size() < cfg.samples) { ensureModel(*S); if (S->model) samples.push_back(inputVals(*S, *S->model)); }
    terminate(S); return;
  }
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static void writeOut(const std::string &entry) {
  std::ostringstream o; auto inp = [&](const std::vector<std::pair<std::string, std::string>> &v) { o << "{"; bool f = true; for (auto &p : v) { if (!f) o << ", "; f = false; o << "\"" << jesc(p.first) << "\": \"" << jesc(p.second) << "\""; } o << "}"; };
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "{\n \"entry\": \"" << entry << "\",\n \"paths_completed\": " << st.ended << ", \"paths_cut\": " << st.killed << ", \"forks\": " << st.forks << ", \"merges\": " << st.merges << ", \"merge_failures\": " << st.mergeFail << ", \"instructions\": " << st.steps
    << ",\n \"asserts\": " << st.asserts << ", \"asserts_proved\": " << st.assertsProved << ", \"asserts_trivial\": " << st.assertsTrivial << ", \"violations_total\": " << st.violations << ", \"unknown\": " << st.unknown
    << ",\n \"queries\": " << sstats.queries << ", \"sat\": " << sstats.sat << ", \"unsat\": " << sstats.unsat << ", \"solver_unknown\": " << sstats.unknown << ", \"cache_hits\": " << sstats.cacheHits << ", \"model_hits\": " << sstats.modelHits << ", \"solver_s\": " << sstats.time << ", \"max_query_s\": " << sstats.maxTime << ", \"wall_s\": " << nowS() - T0 << ", \"max_rss_mb\": " << ru.ru_maxrss / 1024 << ",\n \"exprs\": " << numExprs() << ",\n \"reach\": {";
  bool f = true; for (auto &r : reaches) { if (!f) o << ", "; f = false; o << "\"" << jesc(r.first) << "\": " << r.second; }
  o << "},\n \"assertions\": {"; f = true; for (auto &r : assertStat) { if (!f) o << ", "; f = false; o << "\"" << jesc(r.first) << "\": [" << r.second.first << ", " << r.second.second << "]"; }
  o << "},\n \"unknown_asserts\": ["; f = true; for (auto &r : unknownAsserts) { if (!f) o << ", "; f = false; o << "\"" << jesc(r.first) << "\""; }
  o << "],\n \"incomplete\": ["; f = true; for (auto &r : incompletes) { if (!f) o << ", "; f = false; o << "\"" << jesc(r) << "\""; }
  o << "],\n \"assumptions\": ["; f = true; for (auto &r : assumptions) { if (!f) o << ", "; f = false; o << "\"" << jesc(r) << "\""; }
  o << "],\n \"trace\": ["; f = true; for (auto &r : traceOut) { if (!f) o << ", "; f = false; o << "\"" << jesc(r) << "\""; }
  o << "],\n \"samples\": ["; f = true; for (auto &s : samples) { if (!f) o << ", "; f = false; inp(s); }
  o << "],\n \"violations\": ["; f = true; for (auto &v : viols) { if (!f) o << ",\n  "; f = false; o << "{\"key\": \"" << jesc(v.key) << "\", \"kind\": \"" << v.kind << "\", \"msg\": \"" << jesc(v.msg) << "\", \"exact\": " << (v.exact ? "true" : "false") << ", \"where\": \"" << jesc(v.where) << "\", \"inputs\": "; inp(v.inputs); o << "}"; }
  o << "],\n \"functions\": ["; f = true; for (auto &r : covered) { if (!f) o << ",\n  "; f = false; o << "\"" << jesc(r) << "\""; }
  o << "]\n}\n";
  if (cfg.out.empty()) puts(o.str().c_str()); else { std::ofstream fo(cfg.out); fo << o.str(); }
}
int run(int argc, char **argv) {
  T0 = nowS(); initExpr(); std::string file, entry = "ve_main";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--mode") cfg.real = nx() == "real"; else if (a == "--out") cfg.out = nx(); else if (a == "--max-time") cfg.maxTime = atof(nx().c_str()); else if (a == "--timeout") scfg.timeoutMs = atoi(nx().c_str()); else if (a == "--hard-timeout") scfg.hardTimeoutMs = atoi(nx().c_str()); else if (a == "--int-bv") scfg.intAsBv = true; else if (a == "--lazy") cfg.lazy = true; else if (a == "-v") cfg.verbose = true; else if (a == "--repo") cfg.repo = nx(); else if (a == "--param") { std::string kv = nx(); size_t e = kv.find('='); cfg.concrete["param " + kv.substr(0, e)] = kv.substr(e + 1); } else if (a == "--inputs") { cfg.concreteMode = true; std::ifstream in(nx()); std::string n, idx, kind, val; while (in >> n >> idx >> kind >> val) cfg.concrete[n + " " + idx] = val; } else if (a == "--dump") { scfg.dump = true; scfg.dumpDir = nx(); } else if (a == "--samples") cfg.samples = atoi(nx().c_str()); else if (a == "--max-resolve") cfg.maxResolve = atoi(nx().c_str()); else if (a == "--no-cvc5") scfg.useCvc5 = false; else if (a == "--seed") nx(); else file = a; }
  static LLVMContext ctx; SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("vex", errs()); return 3; }
  static DataLayout dl(M.get()); DL = &dl;
  State *S = new State(); S->id = nextState++;
  try {
    initGlobals(*S);
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<uint64_t, const Function*>> cs; for (auto &o : ca->operands()) { auto *s = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), F}); } std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &c : cs) { pushFrame(*S, c.second, {}); runState(S, true); if (!incompletes.empty()) { fprintf(stderr, "ctor failed: %s\n", incompletes[0].c_str()); writeOut(entry); return 2; } } }
    Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    covered.clear(); pushFrame(*S, F, {});
  } catch (EngineError &e) { fprintf(stderr, "init: %s\n", e.msg.c_str()); incomplete("init: " + e.msg); writeOut(entry); return 2; }
  st.steps = 0; work.push_back(S); st.states = 1;
  double lastLog = nowS();
  while (!work.empty()) {
    if (deadline()) { incomplete("time limit"); break; }
    if (cfg.verbose && nowS() - lastLog > 10) { lastLog = nowS(); fprintf(stderr, "[%.0fs] work=%zu ended=%lu killed=%lu forks=%lu merges=%lu steps=%lu queries=%lu solver=%.1fs\n", nowS() - T0, work.size(), st.ended, st.killed, st.forks, st.merges, st.steps, sstats.queries, sstats.time); }
    State *s = work.back(); work.pop_back(); runState(s);
  }
  writeOut(entry);
  if (!viols.empty()) return 1; if (!incompletes.empty() || st.unknown) return 2; return 0;
}
