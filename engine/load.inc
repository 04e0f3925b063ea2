// ---------------------------------------------------------------- loading / decoding
static int widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
  return -1;
}
static void flatten(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out); }
  else out.push_back({t, off});
}
static int nleaf(Type* t) { if (t->isVoidTy()) return 0; std::vector<std::pair<Type*, uint64_t>> v; flatten(t, 0, v); return v.size(); }
static int leafIndex(Type* t, ArrayRef<unsigned> idx) {
  int r = 0;
  for (unsigned i : idx) {
    if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += nleaf(st->getElementType(j)); t = st->getElementType(i); }
    else { auto* at = cast<ArrayType>(t); r += nleaf(at->getElementType()) * i; t = at->getElementType(); }
  }
  return r;
}
static int addConst(const Val& v) { auto k = std::make_pair(v.lo, v.hi); auto it = constIdx.find(k); if (it != constIdx.end()) return it->second; consts.push_back(v); int i = ~(int)(consts.size() - 1); constIdx[k] = i; return i; }
static Val constVal(const Constant* c);
static uint64_t globalAddr(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) { Val v = constVal(a->getAliasee()); return v.lo; }
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); exit(3);
}
static Val fpBits(const APFloat& f, Type* t) {
  APInt b = f.bitcastToAPInt(); u128 v = b.getRawData()[0]; if (b.getBitWidth() > 64) v |= (u128)b.getRawData()[1] << 64; return cv128(v);
}
static Val constVal(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { const APInt& a = i->getValue(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; if (a.getBitWidth() > 128) { fprintf(stderr, "wide constant\n"); } return cv128(v); }
  if (auto* f = dyn_cast<ConstantFP>(c)) return fpBits(f->getValueAPF(), c->getType());
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return cv(0);
  if (auto* g = dyn_cast<GlobalValue>(c)) return cv(globalAddr(g));
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(e)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "gep const\n"); exit(3); } return cv(constVal(cast<Constant>(gep->getPointerOperand())).lo + off.getSExtValue()); }
    switch (e->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constVal(e->getOperand(0));
    case Instruction::Trunc: { Val v = constVal(e->getOperand(0)); return cv128(v128(v) & maskw(widthOf(e->getType()))); }
    case Instruction::Sub: return cv(constVal(e->getOperand(0)).lo - constVal(e->getOperand(1)).lo);
    case Instruction::Add: return cv(constVal(e->getOperand(0)).lo + constVal(e->getOperand(1)).lo);
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); exit(3);
}
static void initMem(std::vector<uint8_t>& b, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initMem(b, off + i * es, cd->getElementAsConstant(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(b, off + i * es, ca->getOperand(i)); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(b, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto* cvv = dyn_cast<ConstantVector>(c)) { uint64_t es = DL->getTypeAllocSize(cvv->getType()->getElementType()); for (unsigned i = 0; i < cvv->getNumOperands(); i++) initMem(b, off + i * es, cvv->getOperand(i)); return; }
  Val v = constVal(c); u128 x = v128(v); uint64_t n = DL->getTypeStoreSize(t); memcpy(&b[off], &x, std::min<uint64_t>(n, 16));
}

enum Bi { B_NONE = -1, B_SX_U64, B_SX_U128, B_SX_ASSUME, B_SX_ASSERT, B_SX_CONC, B_SX_OBS, B_SX_OBS128, B_SX_PARAM, B_SX_COVER, B_SX_REJECT, B_SX_ISSYM, B_SX_DBG, B_SX_TRACE, B_SX_NEXC, B_SX_RACE, B_SX_EQ256,
  B_MALLOC, B_CALLOC, B_FREE, B_REALLOC, B_ALIGNED, B_MEMALIGN, B_MEMCPY, B_MEMSET, B_NOP, B_NOP0, B_ABORT, B_ASSERTFAIL, B_EXIT, B_ALLOCEXC, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_STDTHROW, B_GUARD, B_TYPEID,
  B_MATH1, B_POW, B_MINMAX, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSH, B_OVF, B_SAT, B_FMA, B_ASSUME, B_EXPECT, B_TRAP, B_OBJSIZE, B_FMINMAX, B_ATEXIT, B_LOADREL, B_ISCONST, B_BITREV, B_COPYSIGN, B_KMPC, B_TIME, B_UNKNOWN };
static std::map<std::string, int> biByName;
static void initBi() {
  auto& m = biByName;
  m["sx_u64"] = B_SX_U64; m["sx_u128"] = B_SX_U128; m["sx_assume"] = B_SX_ASSUME; m["sx_assert"] = B_SX_ASSERT; m["sx_concretize"] = B_SX_CONC; m["sx_observe"] = B_SX_OBS; m["sx_observe128"] = B_SX_OBS128;
  m["sx_param"] = B_SX_PARAM; m["sx_cover"] = B_SX_COVER; m["sx_reject"] = B_SX_REJECT; m["sx_is_symbolic"] = B_SX_ISSYM; m["sx_debug"] = B_SX_DBG; m["sx_trace"] = B_SX_TRACE;
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) m[n] = B_MALLOC;
  m["calloc"] = B_CALLOC; m["realloc"] = B_REALLOC; m["_ZnwmSt11align_val_t"] = B_ALIGNED; m["_ZnamSt11align_val_t"] = B_ALIGNED; m["aligned_alloc"] = B_MEMALIGN;
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"}) m[n] = B_FREE;
  m["memcpy"] = B_MEMCPY; m["memmove"] = B_MEMCPY; m["memset"] = B_MEMSET;
  m["abort"] = B_ABORT; m["__assert_fail"] = B_ASSERTFAIL; m["exit"] = B_EXIT; m["_exit"] = B_EXIT; m["_ZSt9terminatev"] = B_ABORT; m["__clang_call_terminate"] = B_ABORT; m["__cxa_pure_virtual"] = B_ABORT;
  m["__cxa_allocate_exception"] = B_ALLOCEXC; m["__cxa_throw"] = B_THROW; m["__cxa_begin_catch"] = B_BEGINCATCH; m["__cxa_end_catch"] = B_ENDCATCH; m["__cxa_rethrow"] = B_RETHROW; m["__cxa_free_exception"] = B_NOP;
  for (auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt19__throw_logic_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt25__throw_bad_function_callv", "_ZSt20__throw_system_errori", "_ZSt16__throw_bad_castv"}) m[n] = B_STDTHROW;
  m["__cxa_guard_acquire"] = B_GUARD; m["__cxa_guard_release"] = B_NOP; m["__cxa_guard_abort"] = B_NOP; m["__cxa_atexit"] = B_NOP0; m["_ZNSt8ios_base4InitC1Ev"] = B_NOP; m["_ZNSt8ios_base4InitD1Ev"] = B_NOP;
  for (auto n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorC1ERKS_", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev",
      "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12domain_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt12domain_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
      "_ZNSt14overflow_errorC1EPKc", "_ZNSt11range_errorC1EPKc", "_ZNSt12length_errorC1EPKc"}) m[n] = B_NOP;
  for (auto n : {"sqrt", "sqrtl", "sqrtf", "cbrt", "cbrtl", "log", "logl", "log2", "log10", "exp", "floor", "ceil", "fabs", "round", "trunc", "log2l", "floorl", "ceill", "fabsl", "logf", "expl", "log1p", "rint", "nearbyint", "sin", "cos"}) m[n] = B_MATH1;
  m["pow"] = B_POW; m["powl"] = B_POW; m["powf"] = B_POW; m["fmod"] = B_POW;
}
static bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
static int builtinOf(const Function* f) {
  std::string n = f->getName().str();
  auto it = biByName.find(n); if (it != biByName.end()) { if (!f->isDeclaration() && it->second > B_SX_EQ256 ) { /* program defines it itself */ if (n == "memcpy" || n == "memset" || n == "memmove") return it->second; return B_NONE; } return it->second; }
  if (!f->isDeclaration()) return B_NONE;
  if (starts(n, "llvm.")) {
    auto is = [&](const char* p) { return starts(n, p); };
    if (is("llvm.memcpy") || is("llvm.memmove")) return B_MEMCPY; if (is("llvm.memset")) return B_MEMSET;
    if (is("llvm.lifetime") || is("llvm.dbg") || is("llvm.experimental.noalias") || is("llvm.stackrestore") || is("llvm.prefetch") || is("llvm.donothing")|| is("llvm.invariant") || is("llvm.var.annotation")) return B_NOP;
    if (is("llvm.umin") || is("llvm.umax") || is("llvm.smin") || is("llvm.smax")) return B_MINMAX;
    if (is("llvm.abs.")) return B_ABS; if (is("llvm.ctpop")) return B_CTPOP; if (is("llvm.ctlz")) return B_CTLZ; if (is("llvm.cttz")) return B_CTTZ; if (is("llvm.bswap")) return B_BSWAP; if (is("llvm.bitreverse")) return B_BITREV;
    if (is("llvm.fshl") || is("llvm.fshr")) return B_FSH; if (is("llvm.uadd.sat") || is("llvm.usub.sat") || is("llvm.sadd.sat") || is("llvm.ssub.sat")) return B_SAT;
    if (n.find(".with.overflow") != std::string::npos) return B_OVF;
    if (is("llvm.assume")) return B_NOP; if (is("llvm.expect")) return B_EXPECT; if (is("llvm.trap") || is("llvm.ubsantrap") || is("llvm.debugtrap")) return B_TRAP;
    if (is("llvm.objectsize")) return B_OBJSIZE; if (is("llvm.stacksave") || is("llvm.threadlocal.address")) return B_EXPECT; if (is("llvm.eh.typeid.for")) return B_TYPEID;
    if (is("llvm.fma") || is("llvm.fmuladd")) return B_FMA; if (is("llvm.minnum") || is("llvm.maxnum")) return B_FMINMAX; if (is("llvm.is.constant")) return B_ISCONST; if (is("llvm.load.relative")) return B_LOADREL; if (is("llvm.pow.")) return B_POW; if (is("llvm.copysign")) return B_COPYSIGN;
    for (auto q : {"llvm.sqrt", "llvm.floor", "llvm.ceil", "llvm.fabs", "llvm.log", "llvm.exp", "llvm.round", "llvm.trunc", "llvm.rint", "llvm.nearbyint"}) if (is(q)) return B_MATH1;
  }
  return B_UNKNOWN;
}
static Func* getFunc(const Function* f) {
  auto it = funcs.find(f); if (it != funcs.end()) return it->second;
  Func* x = new Func(); x->f = const_cast<Function*>(f); x->name = f->getName().str();
  x->addr = 0x10000 + 16 * (funcs.size() + 1); funcs[f] = x; funcByAddr[x->addr] = x; gaddr[f] = x->addr;
  return x;
}
static void decode(Func* F) {
  Function* f = F->f; F->ready = true;
  if (DISubprogram* sp = f->getSubprogram()) { std::string fn = sp->getFilename().str(); F->repo = fn.find("/repo/") != std::string::npos; }
  std::map<const Value*, int> slot; int ns = 0;
  auto slotOf = [&](const Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) {
      int n = nleaf(v->getType());
      if (n == 1 && widthOf(c->getType()) > 0) return addConst(constVal(c));
      // aggregate constant: materialise consecutive entries
      std::vector<std::pair<Type*, uint64_t>> lv; flatten(c->getType(), 0, lv); std::vector<uint8_t> b(DL->getTypeAllocSize(c->getType()) + 16, 0); initMem(b, 0, c);
      int first = 0; for (int i = (int)lv.size() - 1; i >= 0; i--) { u128 x = 0; memcpy(&x, &b[lv[i].second], (widthOf(lv[i].first) + 7) / 8); consts.push_back(cv128(x)); first = ~(int)(consts.size() - 1); }
      return first; // ~idx decreasing: element i is at first + i
    }
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    int n = std::max(1, nleaf(v->getType())); slot[v] = ns; ns += n; return ns - n; };
  for (auto& a : f->args()) { F->argslots.push_back(slotOf(&a)); F->argn.push_back(nleaf(a.getType())); }
  std::map<const BasicBlock*, int> start; std::vector<std::tuple<int, int, const BasicBlock*, const BasicBlock*>> fix; // inst, which, from, to
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int {
    Edge e; e.target = -1;
    for (auto& phi : to->phis()) { const Value* v = phi.getIncomingValueForBlock(from); int s = slotOf(v), d = slotOf(&phi); int n = nleaf(phi.getType()); for (int i = 0; i < n; i++) e.moves.push_back({d + i, s + i}); }
    F->edges.push_back(e); return (int)F->edges.size() - 1; };
  std::vector<std::pair<int, const BasicBlock*>> edgeTargets;
  auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) { int i = edge(from, to); edgeTargets.push_back({i, to}); return i; };
  for (auto& bb : *f) {
    start[&bb] = F->code.size();
    for (auto& I : bb) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst x; x.src = &I; x.op = I_UNSUP; Type* T = I.getType();
      if (!T->isVoidTy()) { x.d = slotOf(&I); x.n = nleaf(T); x.w = widthOf(T) > 0 ? widthOf(T) : 0; }
      if (T->isIntegerTy() && T->getIntegerBitWidth() > 128) { x.s = "integer wider than 128 bits"; F->code.push_back(x); continue; }
      if (T->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy())) { x.s = "vector"; F->code.push_back(x); continue; }
      auto OP = [&](unsigned i) { return slotOf(I.getOperand(i)); };
      switch (I.getOpcode()) {
#define BIN(N, O) case Instruction::N: x.op = I_BIN; x.sub = O; x.a = OP(0); x.b = OP(1); break;
      BIN(Add, ADD) BIN(Sub, SUB) BIN(Mul, MUL) BIN(UDiv, UDIV) BIN(SDiv, SDIV) BIN(URem, UREM) BIN(SRem, SREM) BIN(And, AND) BIN(Or, OR) BIN(Xor, XOR) BIN(Shl, SHL) BIN(LShr, LSHR) BIN(AShr, ASHR)
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: x.op = I_FBIN; x.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4; x.a = OP(0); x.b = OP(1); break;
      case Instruction::FNeg: x.op = I_FNEG; x.a = OP(0); break;
      case Instruction::ICmp: x.op = I_ICMP; x.sub = cast<ICmpInst>(I).getPredicate(); x.a = OP(0); x.b = OP(1); x.w2 = widthOf(I.getOperand(0)->getType()); if (widthOf(I.getOperand(0)->getType()) > 128) { x.op = I_UNSUP; x.s = "wide icmp"; } break;
      case Instruction::FCmp: x.op = I_FCMP; x.sub = cast<FCmpInst>(I).getPredicate(); x.a = OP(0); x.b = OP(1); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::ZExt: x.op = I_ZEXT; x.a = OP(0); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::SExt: x.op = I_SEXT; x.a = OP(0); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::Trunc: x.op = I_TRUNC; x.a = OP(0); x.w2 = widthOf(I.getOperand(0)->getType()); if (widthOf(I.getOperand(0)->getType()) > 128) { x.op = I_UNSUP; x.s = "wide trunc"; } break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = x.w < widthOf(I.getOperand(0)->getType()) ? I_TRUNC : I_ZEXT; x.a = OP(0); x.w2 = widthOf(I.getOperand(0)->getType()); if (x.w2 == x.w) x.op = I_MOVE; break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: x.op = I_MOVE; x.a = OP(0); break;
      case Instruction::FPToUI: case Instruction::FPToSI: x.op = I_FP2I; x.sub = I.getOpcode() == Instruction::FPToSI; x.a = OP(0); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::UIToFP: case Instruction::SIToFP: x.op = I_I2FP; x.sub = I.getOpcode() == Instruction::SIToFP; x.a = OP(0); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::FPExt: case Instruction::FPTrunc: x.op = I_FPCONV; x.a = OP(0); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::Load: { x.op = I_LOAD; x.a = OP(0); std::vector<std::pair<Type*, uint64_t>> lv; flatten(T, 0, lv); for (auto& l : lv) x.leaves.push_back({(int)l.second, widthOf(l.first)}); break; }
      case Instruction::Store: { x.op = I_STORE; x.a = OP(0); x.b = OP(1); std::vector<std::pair<Type*, uint64_t>> lv; flatten(I.getOperand(0)->getType(), 0, lv); for (auto& l : lv) x.leaves.push_back({(int)l.second, widthOf(l.first)}); for (auto& l : x.leaves) if (l.second > 128 || l.second < 0) { x.op = I_UNSUP; x.s = "wide store"; } break; }
      case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(al.getAllocatedType()); x.a = slotOf(al.getArraySize()); x.e1 = al.getAlign().value(); break; }
      case Instruction::GetElementPtr: {
        x.op = I_GEP; x.a = OP(0); auto& g = cast<GetElementPtrInst>(I); APInt off(64, 0); MapVector<Value*, APInt> vo;
        if (!g.collectOffset(*DL, 64, vo, off)) { x.op = I_UNSUP; break; }
        x.imm = (u128)(uint64_t)off.getSExtValue(); for (auto& p : vo) { x.gep.push_back({slotOf(p.first), (uint64_t)p.second.getSExtValue()}); x.gepw.push_back(widthOf(p.first->getType())); } break; }
      case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isUnconditional()) { x.op = I_BR; x.e1 = mkEdge(&bb, b.getSuccessor(0)); } else { x.op = I_CBR; x.a = OP(0); if (auto* fc = dyn_cast<FCmpInst>(b.getCondition())) if (fc->getOperand(0)->getType()->isDoubleTy()) { x.w2 = 64; x.sub = fc->getPredicate(); x.b = slotOf(fc->getOperand(0)); x.c = slotOf(fc->getOperand(1)); } x.e1 = mkEdge(&bb, b.getSuccessor(0)); x.e2 = mkEdge(&bb, b.getSuccessor(1)); } break; }
      case Instruction::Switch: { auto& s = cast<SwitchInst>(I); x.op = I_SWITCH; x.a = slotOf(s.getCondition()); x.w2 = widthOf(s.getCondition()->getType()); x.e1 = mkEdge(&bb, s.getDefaultDest()); for (auto& c : s.cases()) { x.cases.push_back(v128(constVal(c.getCaseValue()))); x.edges.push_back(mkEdge(&bb, c.getCaseSuccessor())); } break; }
      case Instruction::Select: x.op = I_SELECT; x.a = OP(0); x.b = OP(1); x.c = OP(2); if (auto* fc = dyn_cast<FCmpInst>(I.getOperand(0))) if (fc->getOperand(0)->getType()->isDoubleTy()) { x.w2 = 64; x.sub = fc->getPredicate(); x.cases = {(u128)(i128)slotOf(fc->getOperand(0)), (u128)(i128)slotOf(fc->getOperand(1))}; } break;
      case Instruction::Ret: x.op = I_RET; x.n = I.getNumOperands() ? nleaf(I.getOperand(0)->getType()) : 0; if (x.n) x.a = OP(0); break;
      case Instruction::Unreachable: x.op = I_UNREACH; break;
      case Instruction::ExtractValue: { auto& ev = cast<ExtractValueInst>(I); x.op = I_MOVE; int b = OP(0); x.a = b + leafIndex(I.getOperand(0)->getType(), ev.getIndices()); break; }
      case Instruction::InsertValue: { auto& iv = cast<InsertValueInst>(I); x.op = I_INSERT; x.a = OP(0); x.b = OP(1); x.c = leafIndex(T, iv.getIndices()); x.e1 = nleaf(I.getOperand(1)->getType()); break; }
      case Instruction::LandingPad: { x.op = I_LANDING; break; }
      case Instruction::Resume: x.op = I_RESUME; x.a = OP(0); break;
      case Instruction::Fence: x.op = I_BUILTIN; x.bi = B_NOP; x.d = -1; break;
      case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); x.op = I_ATOMRMW; x.a = OP(0); x.b = OP(1); x.sub = r.getOperation(); break; }
      case Instruction::AtomicCmpXchg: { x.op = I_CMPXCHG; x.a = OP(0); x.b = OP(1); x.c = OP(2); x.w = widthOf(I.getOperand(1)->getType()); break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto& c = cast<CallBase>(I); x.op = I_CALL; x.invoke = I.getOpcode() == Instruction::Invoke;
        for (auto& a : c.args()) { if (a->getType()->isMetadataTy()) { x.args.push_back(addConst(cv(0))); x.argw.push_back(64); continue; } if (a->getType()->isIntegerTy() && a->getType()->getIntegerBitWidth() > 128) { x.s = "wide arg"; x.op = I_UNSUP; break; } x.args.push_back(slotOf(a)); x.argw.push_back(widthOf(a->getType()) > 0 ? widthOf(a->getType()) : -nleaf(a->getType())); }
        if (x.op == I_UNSUP) break;
        if (c.isInlineAsm()) { auto* ia = cast<InlineAsm>(c.getCalledOperand()); x.s = ia->getAsmString(); std::string cs = ia->getConstraintString(); x.op = I_UNSUP; 
          if (x.s.find("div") != std::string::npos && x.args.size() == 3) { x.op = I_ASMDIV; x.s = cs; } else if (x.s.empty()) { x.op = I_BUILTIN; x.bi = B_NOP; } 
        } else if (const Function* g = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts())) {
          x.fn = getFunc(g); x.bi = builtinOf(g); if (x.bi != B_NONE) { x.op = I_BUILTIN; x.s = g->getName().str(); }
          if (x.op == I_BUILTIN && c.arg_size() > 0 && widthOf(c.getArgOperand(0)->getType()) > 0) x.w2 = widthOf(c.getArgOperand(0)->getType());
        } else { x.fn = nullptr; x.a = slotOf(c.getCalledOperand()); }
        if (x.invoke) { auto& iv = cast<InvokeInst>(I); x.e1 = mkEdge(&bb, iv.getNormalDest()); x.e2 = mkEdge(&bb, iv.getUnwindDest()); }
        break; }
      default: break;
      }
      if (x.op == I_UNSUP && x.s.empty()) x.s = I.getOpcodeName();
      F->code.push_back(x);
    }
  }
  for (auto& e : edgeTargets) F->edges[e.first].target = start[e.second];
  F->nslots = ns;
}
