// ---------------------------------------------------------------- interpreter
static inline double asD(const Val& v) { double d; memcpy(&d, &v.lo, 8); return d; }
static inline float asF(const Val& v) { float d; uint32_t x = (uint32_t)v.lo; memcpy(&d, &x, 4); return d; }
static inline ld asL(const Val& v) { ld d = 0; memcpy(&d, &v.lo, 8); memcpy((char*)&d + 8, &v.hi, 2); return d; }
static inline ld getFP(const Val& v, int w) { return w == 64 ? (ld)asD(v) : w == 32 ? (ld)asF(v) : asL(v); }
static inline Val putFP(ld x, int w) {
  if (w == 64) { double d = (double)x; uint64_t u; memcpy(&u, &d, 8); return cv(u); }
  if (w == 32) { float d = (float)x; uint32_t u; memcpy(&u, &d, 4); return cv(u); }
  uint64_t lo, hi = 0; memcpy(&lo, &x, 8); memcpy(&hi, (char*)&x + 8, 2); return cv(lo, hi & 0xffff);
}
static inline Val fbin(int op, const Val& a, const Val& b, int w) {
  if (w == 64) { double x = asD(a), y = asD(b), r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x / y : std::fmod(x, y); uint64_t u; memcpy(&u, &r, 8); return cv(u); }
  if (w == 32) { float x = asF(a), y = asF(b), r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x / y : std::fmod(x, y); uint32_t u; memcpy(&u, &r, 4); return cv(u); }
  ld x = asL(a), y = asL(b), r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x / y : fmodl(x, y); return putFP(r, 80);
}
static Expr* havoc(State& S, const char* what, int w) {
  static std::map<std::pair<int, int>, Expr*> cache;
  auto k = std::make_pair(S.seq++, w); auto it = cache.find(k); Expr* e;
  if (it != cache.end()) e = it->second; else e = cache[k] = mkVar(std::string("havoc_") + what, w, 0, maskw(w), true);
  S.vars.push_back(e); if (S.model.size() <= (size_t)e->c) S.model.resize((size_t)e->c + 1, 0); S.model[(size_t)e->c] = e->iv.ul; return e;
}
static Expr* symVar(State& S, const std::string& name, int w, u128 lo, u128 hi) {
  static std::map<std::tuple<int, std::string, int, u128, u128>, Expr*> cache;
  auto k = std::make_tuple(S.seq++, name, w, lo, hi); auto it = cache.find(k); Expr* e;
  if (it != cache.end()) e = it->second; else e = cache[k] = mkVar(name, w, lo, hi);
  S.vars.push_back(e); if (S.model.size() <= (size_t)e->c) S.model.resize((size_t)e->c + 1, 0); S.model[(size_t)e->c] = lo; return e;
}
// intervals of doubles: every operation is monotone in its correctly rounded form; libm results get a margin
struct DI { double lo, hi; };
static double dstep(double d, int n) { for (; n > 0; n--) d = std::nextafter(d, INFINITY); for (; n < 0; n++) d = std::nextafter(d, -INFINITY); return d; }
static bool fiv(State& S, const Val& v, int w, DI& d) {
  if (w != 64) return false;
  if (!v.e) { d.lo = d.hi = asD(v); return !std::isnan(d.lo); }
  switch (v.e->op) {
  case FIV: { uint64_t l = (uint64_t)v.e->c, h = (uint64_t)(v.e->c >> 64); memcpy(&d.lo, &l, 8); memcpy(&d.hi, &h, 8); return true; }
  case FROMINT_U: case FROMINT_S: { const Iv& i = ival(S, v.e->k[0]); d.lo = (double)i.ul; d.hi = (double)i.uh; return true; }
  case FROOT: { const Iv& i = ival(S, v.e->k[0]); int n = (int)v.e->c; d.lo = n == 2 ? std::sqrt((double)i.ul) : dstep(std::pow((double)i.ul, 1.0 / n), -8); d.hi = n == 2 ? std::sqrt((double)i.uh) : dstep(std::pow((double)i.uh, 1.0 / n), 8); d.lo = std::max(0.0, d.lo); return true; }
  default: return false; }
}
static Val mkFiv(double lo, double hi, int w) {
  if (w != 64 || std::isnan(lo) || std::isnan(hi) || lo > hi) return Val{0, 0, mkFp(FUNK, nullptr, 0, w)};
  uint64_t l, h; memcpy(&l, &lo, 8); memcpy(&h, &hi, 8); if (l == h && lo != 0) return cv(l);
  return Val{0, 0, mkFp(FIV, nullptr, (u128)l | (u128)h << 64, w)};
}
static Val fivBin(State& S, int op, const Val& a, const Val& b, int w) {
  DI x, y; Val unk{0, 0, nullptr};
  if (!fiv(S, a, w, x) || !fiv(S, b, w, y) || op > 3) return Val{0, 0, mkFp(FUNK, nullptr, 0, w)};
  bool ix = std::isinf(x.lo) || std::isinf(x.hi), iy = std::isinf(y.lo) || std::isinf(y.hi), zx = x.lo <= 0 && x.hi >= 0, zy = y.lo <= 0 && y.hi >= 0;
  if ((op < 2 && ix && iy) || (op == 2 && ((ix && zy) || (iy && zx))) || (op == 3 && (zy || (ix && iy)))) return Val{0, 0, mkFp(FUNK, nullptr, 0, w)};
  double r[4]; int n = 0; for (double p : {x.lo, x.hi}) for (double q : {y.lo, y.hi}) r[n++] = op == 0 ? p + q : op == 1 ? p - q : op == 2 ? p * q : p / q;
  return mkFiv(*std::min_element(r, r + 4), *std::max_element(r, r + 4), w);
}
// a decided comparison narrows the registers it compared (only values that are intervals themselves)
static void fivRefine(State& S, Val* a, Val* b, int pred, bool t) {
  Val va = *a, vb = *b; DI x, y; if (!fiv(S, va, 64, x) || !fiv(S, vb, 64, y)) return; int p = pred & 7; if (!t) p ^= 7; DI u = x, v = y;
  if (!(p & 2)) { u.hi = std::min(u.hi, p & 1 ? y.hi : std::nextafter(y.hi, -INFINITY)); v.lo = std::max(v.lo, p & 1 ? x.lo : std::nextafter(x.lo, INFINITY)); }
  if (!(p & 4)) { u.lo = std::max(u.lo, p & 1 ? y.lo : std::nextafter(y.lo, INFINITY)); v.hi = std::min(v.hi, p & 1 ? x.hi : std::nextafter(x.hi, -INFINITY)); }
  if (p == 6 && y.lo == y.hi) { if (u.lo == y.lo) u.lo = std::nextafter(u.lo, INFINITY); if (u.hi == y.lo) u.hi = std::nextafter(u.hi, -INFINITY); }
  if (va.e && va.e->op == FIV && u.lo <= u.hi) *a = mkFiv(u.lo, u.hi, 64);
  if (vb.e && vb.e->op == FIV && v.lo <= v.hi) *b = mkFiv(v.lo, v.hi, 64);
}
static Val fivSqr(State& S, const Val& a, int w) {
  DI x; if (!fiv(S, a, w, x)) return Val{0, 0, mkFp(FUNK, nullptr, 0, w)};
  double m = std::max(-x.lo, x.hi), l = x.lo > 0 ? x.lo : x.hi < 0 ? -x.hi : 0; return mkFiv(l * l, m * m, w);
}
static Val fivMath(State& S, const std::string& n, const Val& v, int w) {
  DI x; if (!fiv(S, v, w, x)) return Val{0, 0, mkFp(FUNK, nullptr, 0, w)};
  auto mono = [&](double (*f)(double), int m) { return mkFiv(dstep(f(x.lo), -m), dstep(f(x.hi), m), w); };
  if (n == "fabs") return x.lo >= 0 ? v : x.hi <= 0 ? mkFiv(-x.hi, -x.lo, w) : mkFiv(0, std::max(-x.lo, x.hi), w);
  if (n == "floor") return mono(std::floor, 0); if (n == "ceil") return mono(std::ceil, 0); if (n == "trunc") return mono(std::trunc, 0); if (n == "round") return mono(std::round, 0); if (n == "rint" || n == "nearbyint") return mono(std::rint, 0);
  if (n == "cbrt") return mono(std::cbrt, 4); if (n == "exp") { Val r = mono(std::exp, 4); return r; }
  if (x.lo >= 0) { if (n == "sqrt") return mono(std::sqrt, 0); if (n == "log") return mono(std::log, 4); if (n == "log2") return mono(std::log2, 4); if (n == "log10") return mono(std::log10, 4); }
  return Val{0, 0, mkFp(FUNK, nullptr, 0, w)};
}
static u128 iroot128(u128 x, int n) {
  if (x == 0) return 0;
  u128 lo = 0, hi = n == 1 ? x : ((u128)1 << (128 / n + 1 > 127 ? 127 : 128 / n + 1));
  auto le = [&](u128 r) { u128 p = 1; for (int i = 0; i < n; i++) if (__builtin_mul_overflow(p, r, &p)) return false; return p <= x; };
  while (lo < hi) { u128 m = lo + (hi - lo + 1) / 2; if (le(m)) lo = m; else hi = m - 1; }
  return lo;
}
static std::string readStr(State& S, const Val& p) {
  std::string s; if (p.e) return "<sym>"; uint64_t a = p.lo; for (int i = 0; i < 300; i++) { Val v = loadC(S, a + i, 8); if (v.e) { s += '?'; continue; } if (!v.lo) break; s += (char)v.lo; } return s;
}
static std::vector<std::string> stackOf(State& S) { std::vector<std::string> v; for (auto it = S.st.rbegin(); it != S.st.rend(); ++it) { const Inst& I = it->f->code[std::min<size_t>(it->pc, it->f->code.size() - 1)]; std::string s = it->f->name; if (I.src && I.src->getDebugLoc()) { auto& dl = I.src->getDebugLoc(); s += " " + cast<DIScope>(dl.getScope())->getFilename().str() + ":" + std::to_string(dl.getLine()); } v.push_back(s); if (v.size() > 12) break; } return v; }
static std::map<std::string, uint64_t> forkSites; static void noteFork(State& S, uint64_t n) { static bool on = getenv("SYMX_FORKS") != nullptr; if (on && n) { auto v = stackOf(S); std::string s; for (size_t k = 0; k < v.size() && k < 3; k++) s += " < " + v[k]; forkSites[s] += n; } }
static void report(State& S, const std::string& kind, const std::string& msg, const std::vector<u128>& m) {
  Violation v; v.kind = kind; v.msg = msg; for (Expr* e : S.vars) v.vals.push_back({g_vars[(size_t)e->c].name, (size_t)e->c < m.size() ? m[(size_t)e->c] : e->iv.ul}); v.stack = stackOf(S); violations.push_back(v);
}
static bool ensureModel(State& S) {
  EvalMemo memo; if (modelHolds(S, S.model, memo)) return true;
  std::vector<Expr*> q = S.pc; for (Expr* v : S.vars) { auto f = S.facts.find(v); if (f == S.facts.end()) continue; q.push_back(mk(ULE, 1, mkConst(f->second.ul, v->w), v)); q.push_back(mk(ULE, 1, v, mkConst(f->second.uh, v->w))); q.push_back(mk(SLE, 1, mkConst((u128)f->second.sl, v->w), v)); q.push_back(mk(SLE, 1, v, mkConst((u128)f->second.sh, v->w))); }
  std::vector<u128> m; Res r = smtCheck(q, m); if (r == SAT) { S.model = m; return true; }
  return false;
}
static void follow(State& S, Frame& F, int e) {
  Edge& E = F.f->edges[e];
  size_t n = E.moves.size();
  auto get = [&](int i) -> const Val& { return i >= 0 ? F.r[i] : consts[~i]; };
  if (n == 1) F.r[E.moves[0][0]] = get(E.moves[0][1]);
  else if (n) { static std::vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; i++) tmp[i] = get(E.moves[i][1]); for (size_t i = 0; i < n; i++) F.r[E.moves[i][0]] = tmp[i]; }
  F.pc = E.target;
}
static void popFrame(State& S) { for (auto a : S.st.back().allocas) removeObj(S, a); S.st.pop_back(); }

// exception matching
static std::string tiName(uint64_t a) { auto it = gname.find(a); return it == gname.end() ? "" : it->second; }
static bool stdDerived(const std::string& d, const std::string& b) {
  if (d == b) return true;
  static std::map<std::string, std::string> base = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
  auto it = base.find(d); return it != base.end() && stdDerived(it->second, b);
}
static uint64_t stdTi(const std::string& n) { for (auto& p : gname) if (p.second == n) return p.first; return 0; }
static bool tiMatch(State& S, uint64_t t, uint64_t want) {
  if (!want || t == want) return true;
  std::string a = tiName(t), b = tiName(want);
  if (!a.empty() && stdDerived(a, b)) return true;
  Obj* o = findObj(S, t); if (!o || o->size < 24) return false;
  Val base = loadC(S, t + 16, 64); if (base.e || !base.lo || gname.find(base.lo) == gname.end()) return false;
  return tiMatch(S, base.lo, want);
}
static bool landingMatches(State& S, Frame& F, int padPc, int& sel) {
  // returns true if the landing pad handles (or cleans up)
  const Inst& L = F.f->code[padPc]; if (L.op != I_LANDING) return false;
  auto& lp = cast<LandingPadInst>(*L.src);
  for (unsigned i = 0; i < lp.getNumClauses(); i++) if (lp.isCatch(i)) { uint64_t ti = constVal(lp.getClause(i)).lo; if (tiMatch(S, S.excTi, ti)) { sel = ti ? (int)(ti & 0x7ffffff0) + 1 : 1; return true; } }
  sel = 0; return lp.isCleanup();
}
static void unwind(State& S) {
  // the top frame is the one whose call raised
  while (!S.st.empty()) {
    Frame& F = S.st.back(); const Inst& I = F.f->code[F.pc];
    if ((I.op == I_CALL || I.op == I_BUILTIN) && I.invoke) {
      int tgt = F.f->edges[I.e2].target, sel; if (landingMatches(S, F, tgt, sel)) { follow(S, F, I.e2); const Inst& L = F.f->code[F.pc]; if (L.d >= 0) { F.r[L.d] = cv(S.excObj); F.r[L.d + 1] = cv((uint32_t)sel); } F.pc++; return; }
    }
    popFrame(S);
  }
  std::string n = tiName(S.excTi);
  endPath("exception", "uncaught exception " + n);
}
static void raise(State& S, uint64_t obj, uint64_t ti) { S.excObj = obj; S.excTi = ti; unwind(S); }

static void finishInst(Frame& F, const Inst& I) { if (I.invoke) { /* normal edge */ } F.pc++; }
static void callFunc(State& S, Func* fn, const Inst& I, const std::vector<Val>& av) {
  if (fn->f->isDeclaration()) { endPath("inconclusive", "call of external function " + fn->name); }
  if (!fn->ready) decode(fn);
  fn->count++;
  if (S.st.size() > 20000) endPath("memory", "stack overflow: recursion deeper than 20000 frames");
  Frame N; N.f = fn; N.pc = 0; N.r.assign(fn->nslots, Val{0, 0, nullptr}); N.ret = I.d; N.call = &I; size_t k = 0;
  for (size_t i = 0; i < fn->argslots.size(); i++) for (int j = 0; j < fn->argn[i]; j++) { if (k < av.size()) N.r[fn->argslots[i] + j] = av[k]; k++; }
  S.st.push_back(std::move(N));
}
static void assertion(State& S, Val c, const std::string& msg) {
  stats.asserts++; assertStat[msg]++;
  if (!c.e) { stats.concAsserts++; if (!(c.lo & 1)) { if (!ensureModel(S)) { inconclusive.push_back("no model for failed assertion: " + msg); endPath("inconclusive", ""); } report(S, "assert", msg, S.model); endPath("violated", msg); } return; }
  const Iv& v = ival(S, c.e);
  stats.symAsserts++;
  if (v.ul == v.uh && v.ul == 1) return;
  std::vector<u128> m; Res r = feasible(S, mkNot(c.e), &m, false); // assertions always go to the solver
  if (r == UNSAT) { return; }
  if (r == SAT) { EvalMemo mm; std::vector<u128> full = m; if (!modelHolds(S, full, mm)) { std::vector<Expr*> q = S.pc; q.push_back(mkNot(c.e)); std::vector<u128> m2; if (smtCheck(q, m2) == SAT) full = m2; } report(S, "assert", msg, full); endPath("violated", msg); }
  inconclusive.push_back("solver gave no answer on assertion: " + msg + " " + (getenv("SYMX_DUMP") ? dump(c.e, 12) : "")); 
}

static void builtin(State& S, Frame& F, const Inst& I) {
  auto get = [&](int i) -> Val { return i >= 0 ? F.r[i] : consts[~i]; };
  auto A = [&](int k) -> Val { return get(I.args[k]); };
  auto set = [&](Val v) { if (I.d >= 0) F.r[I.d] = v; };
  auto conc = [&](int k) -> uint64_t { Val v = A(k); concretize(S, v, I.argw[k], I.s.c_str()); return v.lo; };
  auto readI128 = [&](int& k) -> Val { if (I.argw[k] == 128) return A(k++); Val l = A(k), h = A(k + 1); k += 2; if (!l.e && !h.e) return cv(l.lo, h.lo); return fromE(mk(ADD, 128, mk(MUL, 128, mk(ZEXT, 128, ex(h, 64)), mkConst((u128)1 << 64, 128)), mk(ZEXT, 128, ex(l, 64)))); };
  switch (I.bi) {
  case B_SX_U64: { uint64_t lo = conc(1), hi = conc(2); if (lo > hi) endPath("infeasible", ""); std::string n = readStr(S, A(0)); if (lo == hi) { Expr* e = symVar(S, n, 64, lo, hi); (void)e; set(cv(lo)); } else set(fromE(symVar(S, n, 64, lo, hi))); break; }
  case B_SX_U128: { int k = 1; Val lo = readI128(k), hi = readI128(k); concretize(S, lo, 128, "sx_u128"); concretize(S, hi, 128, "sx_u128"); if (v128(lo) > v128(hi)) endPath("infeasible", ""); std::string n = readStr(S, A(0)); Expr* e = symVar(S, n, 128, v128(lo), v128(hi)); if (v128(lo) == v128(hi)) e = mkConst(v128(lo), 128); if (I.d >= 0) { if (I.n == 2) { F.r[I.d] = fromE(mkExtract(e, 0, 64)); F.r[I.d + 1] = fromE(mkExtract(e, 64, 64)); } else F.r[I.d] = fromE(e); } break; }
  case B_SX_ASSUME: { Val c = A(0); if (!c.e) { if (!(c.lo & 1)) endPath("infeasible", ""); break; } Expr* e = mkExtract(c.e, 0, 1); const Iv& v = ival(S, e); if (v.ul == v.uh) { if (!v.ul) endPath("infeasible", ""); break; } std::vector<u128> m; Res r = feasible(S, e, &m); if (r == UNSAT) endPath("infeasible", ""); if (r == UNKNOWN) endPath("inconclusive", "unknown on assume"); S.model = m; if (!addC(S, e)) endPath("infeasible", ""); break; }
  case B_SX_ASSERT: { Val c = A(0); if (c.e) c = fromE(mkExtract(c.e, 0, 1)); uint64_t mp = conc(1); assertion(S, c, readStr(S, cv(mp))); break; }
  case B_SX_CONC: { Val v = A(0); concretize(S, v, I.argw[0], "sx_concretize"); set(v); break; }
  case B_SX_OBS: { S.obs.push_back({readStr(S, A(0)), A(1)}); S.obsw.push_back(64); break; }
  case B_SX_OBS128: { int k = 1; Val v = readI128(k); S.obs.push_back({readStr(S, A(0)), v}); S.obsw.push_back(128); break; }
  case B_SX_PARAM: { uint64_t i = conc(0); set(cv(i < params.size() ? (uint64_t)params[i] : 0)); break; }
  case B_SX_COVER: { uint64_t p = conc(0); S.covers.insert(readStr(S, cv(p))); break; }
  case B_SX_REJECT: endPath("infeasible", "");
  case B_SX_ISSYM: set(cv(A(0).e != nullptr)); break;
  case B_SX_TRACE: S.trace.push_back(readStr(S, A(0))); break;
  case B_SX_DBG: { Val v = A(1); fprintf(stderr, "DBG %s = %s", readStr(S, A(0)).c_str(), v.e ? dump(v.e, 10).c_str() : u128s(v128(v)).c_str()); if (v.e && !v.e->fp) { const Iv& q = ival(S, v.e); fprintf(stderr, " [%s..%s]", u128s(q.ul).c_str(), u128s(q.uh).c_str()); } fprintf(stderr, "\n"); break; }
  case B_MALLOC: { uint64_t n = conc(0); set(cv(allocObj(S, n, 2, "heap"))); break; }
  case B_CALLOC: { uint64_t n = conc(0), m = conc(1); set(cv(allocObj(S, n * m, 2, "heap"))); break; }
  case B_ALIGNED: { uint64_t n = conc(0), al = conc(1); set(cv(allocObj(S, n, 2, "heap", al))); break; }
  case B_MEMALIGN: { uint64_t al = conc(0), n = conc(1); set(cv(allocObj(S, n, 2, "heap", al))); break; }
  case B_REALLOC: { uint64_t p = conc(0), n = conc(1); uint64_t q = allocObj(S, n, 2, "heap"); if (p) { Obj* o = findObj(S, p); if (!o || o->base != p) endPath("memory", "realloc of a bad pointer"); copyMem(S, q, p, std::min(n, o->size)); removeObj(S, p); } set(cv(q)); break; }
  case B_FREE: { uint64_t p = conc(0); if (!p) break; Obj* o = findObj(S, p); if (!o || o->base != p || o->kind != 2) endPath("memory", "free of a pointer that was not allocated " + hexs(p)); removeObj(S, p); break; }
  case B_MEMCPY: { uint64_t n = conc(2); uint64_t d = conc(0), s = conc(1); copyMem(S, d, s, n); set(A(0)); break; }
  case B_MEMSET: { uint64_t n = conc(2), d = conc(0); Val v = A(1); if (n) { if (v.e) { Expr* b = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) storeC(S, d + i, 8, fromE(b)); } else { Obj* o = access(S, d, n, true); memset(&o->b[d - o->base], (int)v.lo, n); for (auto it = o->sym.lower_bound(d - o->base); it != o->sym.end() && it->first < d - o->base + n;) it = o->sym.erase(it); } } set(A(0)); break; }
  case B_NOP: break;
  case B_NOP0: set(cv(0)); break;
  case B_ABORT: endPath("abort", "abort/terminate called");
  case B_ASSERTFAIL: endPath("abort", "assert failed: " + readStr(S, A(0)));
  case B_EXIT: endPath("exit", "exit called");
  case B_ALLOCEXC: { set(cv(allocObj(S, std::max<uint64_t>(conc(0), 16), 2, "exception"))); break; }
  case B_THROW: { raise(S, conc(0), conc(1)); return; }
  case B_RETHROW: { if (S.caught.empty()) endPath("abort", "rethrow without exception"); auto p = S.caught.back(); raise(S, p.first, p.second); return; }
  case B_STDTHROW: { std::string n = I.s; uint64_t ti = stdTi(n.find("length") != std::string::npos ? "_ZTISt12length_error" : n.find("out_of_range") != std::string::npos ? "_ZTISt12out_of_range" : n.find("invalid_arg") != std::string::npos ? "_ZTISt16invalid_argument" : n.find("bad_alloc") != std::string::npos || n.find("bad_array") != std::string::npos ? "_ZTISt9bad_alloc" : "_ZTISt11logic_error"); if (!ti) ti = stdTi("_ZTISt9exception"); raise(S, allocObj(S, 64, 2, "exception"), ti); return; }
  case B_BEGINCATCH: S.caught.push_back({S.excObj, S.excTi}); set(A(0)); break;
  case B_ENDCATCH: if (!S.caught.empty()) S.caught.pop_back(); break;
  case B_TYPEID: { uint64_t ti = conc(0); set(cv(ti ? (uint32_t)((ti & 0x7ffffff0) + 1) : 1)); break; }
  case B_GUARD: { uint64_t g = conc(0); Val b = loadC(S, g, 8); if (b.lo) set(cv(0)); else { storeC(S, g, 8, cv(1)); set(cv(1)); } break; }
  case B_MATH1: { Val v = A(0); int w = I.argw[0]; std::string n = I.s; if (starts(n, "llvm.")) { n = n.substr(5); n = n.substr(0, n.find('.')); }
      std::string nb = n; if (nb.size() > 1 && (nb.back() == 'l' || nb.back() == 'f') && nb != "ceil") nb.pop_back(); if (nb == "cei") nb = "ceil";
      if (v.e) { if ((nb == "sqrt" || nb == "cbrt") && (v.e->op == FROMINT_U || v.e->op == FROMINT_S)) { set(Val{0, 0, mkFp(FROOT, v.e->k[0], nb == "sqrt" ? 2 : 3, w)}); break; } if ((nb == "floor" || nb == "ceil" || nb == "trunc") && (v.e->op == FROMINT_U || v.e->op == FROMINT_S)) { set(v); break; } set(fivMath(S, nb, v, w)); break; }
      ld x = getFP(v, w), r;
      if (w == 64) { double y = (double)x; r = nb == "sqrt" ? sqrt(y) : nb == "cbrt" ? cbrt(y) : nb == "log" ? log(y) : nb == "log2" ? log2(y) : nb == "log10" ? log10(y) : nb == "exp" ? exp(y) : nb == "floor" ? floor(y) : nb == "ceil" ? ceil(y) : nb == "fabs" ? fabs(y) : nb == "round" ? round(y) : nb == "trunc" ? trunc(y) : nb == "log1p" ? log1p(y) : nb == "sin" ? sin(y) : nb == "cos" ? cos(y) : rint(y); }
      else { r = nb == "sqrt" ? sqrtl(x) : nb == "cbrt" ? cbrtl(x) : nb == "log" ? logl(x) : nb == "log2" ? log2l(x) : nb == "floor" ? floorl(x) : nb == "ceil" ? ceill(x) : nb == "fabs" ? fabsl(x) : nb == "round" ? roundl(x) : nb == "trunc" ? truncl(x) : nb == "exp" ? expl(x) : rintl(x); if (w == 32 && nb == "sqrt") r = sqrtf((float)x); }
      set(putFP(r, w)); break; }
  case B_POW: { Val a = A(0), b = A(1); int w = I.argw[0]; bool isPow = I.s.find("pow") != std::string::npos;
      if (a.e || b.e) { if (isPow && a.e && !b.e && (a.e->op == FROMINT_U || a.e->op == FROMINT_S)) { ld y = getFP(b, w); for (int k = 2; k <= 8; k++) if (fabsl(y - 1.0L / k) < 1e-12L) { set(Val{0, 0, mkFp(FROOT, a.e->k[0], k, w)}); goto done; } }
        DI x; double y = b.e ? 0 : (double)getFP(b, w); if (isPow && w == 64 && !b.e && y > 0 && fiv(S, a, w, x) && x.lo >= 0) set(mkFiv(std::max(0.0, dstep(std::pow(x.lo, y), -8)), dstep(std::pow(x.hi, y), 8), w));
        else if (isPow && w == 64 && !a.e && asD(a) > 0 && fiv(S, b, w, x)) { double p = std::pow(asD(a), x.lo), q = std::pow(asD(a), x.hi); set(mkFiv(std::max(0.0, dstep(std::min(p, q), -8)), dstep(std::max(p, q), 8), w)); }
        else set(Val{0, 0, mkFp(FUNK, nullptr, 0, w)}); break; }
      if (!isPow) set(putFP(w == 64 ? (ld)fmod(asD(a), asD(b)) : fmodl(getFP(a, w), getFP(b, w)), w)); else if (w == 64) set(putFP((ld)pow(asD(a), asD(b)), 64)); else set(putFP(powl(getFP(a, w), getFP(b, w)), w)); break; }
  case B_FMA: { Val a = A(0), b = A(1), c = A(2); int w = I.argw[0]; if (a.e || b.e || c.e) { if (I.s.find("fmuladd") != std::string::npos) { Val t = a.e && cast<CallBase>(I.src)->getArgOperand(0) == cast<CallBase>(I.src)->getArgOperand(1) ? fivSqr(S, a, w) : a.e || b.e ? fivBin(S, 2, a, b, w) : fbin(2, a, b, w); set(fivBin(S, 0, t, c, w)); } else set(Val{0, 0, mkFp(FUNK, nullptr, 0, w)}); break; } if (I.s.find("fmuladd") != std::string::npos) { Val t = fbin(2, a, b, w); set(fbin(0, t, c, w)); } else set(putFP(w == 64 ? (ld)fma(asD(a), asD(b), asD(c)) : fmal(getFP(a, w), getFP(b, w), getFP(c, w)), w)); break; }
  case B_FMINMAX: { Val a = A(0), b = A(1); int w = I.argw[0]; if (a.e || b.e) { DI x, y; if (fiv(S, a, w, x) && fiv(S, b, w, y)) { bool mn = I.s.find("min") != std::string::npos; set(mn ? mkFiv(std::min(x.lo, y.lo), std::min(x.hi, y.hi), w) : mkFiv(std::max(x.lo, y.lo), std::max(x.hi, y.hi), w)); break; } set(Val{0, 0, mkFp(FUNK, nullptr, 0, w)}); break; } ld x = getFP(a, w), y = getFP(b, w); set(putFP(I.s.find("min") != std::string::npos ? fminl(x, y) : fmaxl(x, y), w)); break; }
  case B_COPYSIGN: { Val a = A(0), b = A(1); int w = I.argw[0]; if (a.e || b.e) { set(Val{0, 0, mkFp(FUNK, nullptr, 0, w)}); break; } set(putFP(copysignl(getFP(a, w), getFP(b, w)), w)); break; }
  case B_MINMAX: { Val a = A(0), b = A(1); int w = I.argw[0]; const std::string& n = I.s; bool sg = n[5] == 's'; bool mn = n.find("min") != std::string::npos;
      if (!a.e && !b.e) { bool lt = sg ? sxt(v128(a), w) < sxt(v128(b), w) : v128(a) < v128(b); set(lt == mn ? a : b); }
      else { Expr* x = ex(a, w); Expr* y = ex(b, w); Expr* c = mk(sg ? SLT : ULT, 1, x, y); const Iv& v = ival(S, c);
        if (v.ul == v.uh) set((v.ul == 1) == mn ? a : b);
        else if (optForkSelect) { int t = decide(S, *new Val(fromE(c)), [&](State& T, int tv) { Frame& G = T.st.back(); if (I.d >= 0) G.r[I.d] = ((tv == 1) == mn) ? a : b; if (I.invoke) follow(T, G, I.e1); else G.pc++; }); set((t == 1) == mn ? a : b); }
        else set(fromE(mn ? mk(ITE, w, c, x, y) : mk(ITE, w, c, y, x))); } break; }
  case B_ABS: { Val a = A(0); int w = I.argw[0]; if (!a.e) { i128 v = sxt(v128(a), w); set(cv128((u128)(v < 0 ? -v : v) & maskw(w))); } else { Expr* c = mk(SLT, 1, a.e, mkConst(0, w)); const Iv& v = ival(S, c); Expr* ng = mk(SUB, w, mkConst(0, w), a.e); set(fromE(v.ul == v.uh ? (v.ul ? ng : a.e) : mk(ITE, w, c, ng, a.e))); } break; }
  case B_CTPOP: { Val a = A(0); int w = I.argw[0]; if (!a.e) set(cv(__builtin_popcountll(a.lo) + __builtin_popcountll(a.hi))); else set(fromE(mk(CTPOP, w, a.e))); break; }
  case B_CTLZ: case B_CTTZ: { Val a = A(0); int w = I.argw[0]; set(fromE(mk(I.bi == B_CTLZ ? CTLZ : CTTZ, w, ex(a, w)))); break; }
  case B_BSWAP: { Val a = A(0); int w = I.argw[0]; Expr* e = ex(a, w); Expr* r = mkConst(0, w); for (int i = 0; i < w / 8; i++) r = mk(ADD, w, r, mk(MUL, w, mk(ZEXT, w, mkExtract(e, i * 8, 8)), mkConst((u128)1 << (w - 8 - i * 8), w))); set(fromE(r)); break; }
  case B_FSH: { int w = I.argw[0]; Val sh = A(2); concretize(S, sh, w, "fsh"); unsigned k = (unsigned)(v128(sh) % w); bool left = I.s.find("fshl") != std::string::npos; Expr* a = ex(A(0), w); Expr* b = ex(A(1), w); if (k == 0) { set(left ? A(0) : A(1)); break; } unsigned l = left ? k : w - k; set(fromE(mk(OR, w, mk(SHL, w, a, mkConst(l, w)), mk(LSHR, w, b, mkConst(w - l, w))))); break; }
  case B_OVF: { int w = I.argw[0]; Expr* a = ex(A(0), w); Expr* b = ex(A(1), w); const std::string& n = I.s; bool sg = n[5] == 's'; Op op = n.find("add") == 6 ? ADD : n.find("sub") == 6 ? SUB : MUL;
      Expr* r = mk(op, w, a, b); Expr* o;
      if (op == ADD && !sg) o = mk(ULT, 1, r, a); else if (op == SUB && !sg) o = mk(ULT, 1, a, b);
      else if (op == ADD) o = mk(ITE, 1, mk(SLT, 1, b, mkConst(0, w)), mk(SLT, 1, a, r), mk(SLT, 1, r, a));
      else if (op == SUB) o = mk(ITE, 1, mk(SLT, 1, b, mkConst(0, w)), mk(SLT, 1, r, a), mk(SLT, 1, a, r));
      else if (w <= 64) { Expr* x = mk(sg ? SEXT : ZEXT, 2 * w, a); Expr* y = mk(sg ? SEXT : ZEXT, 2 * w, b); Expr* p = mk(MUL, 2 * w, x, y); o = mkNot(mk(EQ, 1, p, mk(sg ? SEXT : ZEXT, 2 * w, r))); }
      else { Iv x = ival(S, a), y = ival(S, b); u128 t; i128 s; bool safe; if (!sg) safe = !__builtin_mul_overflow(x.uh, y.uh, &t); else { safe = !__builtin_mul_overflow(x.sl, y.sl, &s) && !__builtin_mul_overflow(x.sl, y.sh, &s) && !__builtin_mul_overflow(x.sh, y.sl, &s) && !__builtin_mul_overflow(x.sh, y.sh, &s); }
        if (safe) o = mkConst(0, 1); else if (isC(a) && isC(b)) { bool ov = sg ? __builtin_mul_overflow((i128)a->c, (i128)b->c, &s) : __builtin_mul_overflow(a->c, b->c, &t); o = mkConst(ov, 1); }
        else { // symbolic: exact condition by division
          Expr* z = mk(EQ, 1, a, mkConst(0, w)); if (!sg) o = mk(AND, 1, mkNot(z), mkNot(mk(EQ, 1, mk(UDIV, w, r, a), b))); else o = mk(AND, 1, mkNot(z), mk(OR, 1, mkNot(mk(EQ, 1, mk(SDIV, w, r, a), b)), mk(AND, 1, mk(EQ, 1, a, mkConst(maskw(w), w)), mk(EQ, 1, b, mkConst((u128)1 << (w - 1), w))))); } }
      if (I.d >= 0) { F.r[I.d] = fromE(r); if (!isC(o)) { const Iv& q = ival(S, o); if (q.ul == q.uh) o = mkConst(q.ul, 1); } F.r[I.d + 1] = fromE(o); } break; }
  case B_SAT: { int w = I.argw[0]; Expr* a = ex(A(0), w); Expr* b = ex(A(1), w); if (I.s.find("llvm.u") != 0) endPath("inconclusive", "signed saturation"); if (I.s.find("uadd") != std::string::npos) { Expr* r = mk(ADD, w, a, b); set(fromE(mk(ITE, w, mk(ULT, 1, r, a), mkConst(maskw(w), w), r))); } else set(fromE(mk(ITE, w, mk(ULT, 1, a, b), mkConst(0, w), mk(SUB, w, a, b)))); break; }
  case B_EXPECT: if (I.args.size()) set(A(0)); else set(cv(0)); break;
  case B_TRAP: endPath("ub", "undefined behaviour trap");
  case B_OBJSIZE: set(cv(~0ull)); break;
  case B_ISCONST: set(cv(0)); break;
  case B_LOADREL: { uint64_t p = conc(0), o = conc(1); Val v = loadC(S, p + o, 32); set(cv(p + (int64_t)(int32_t)v.lo)); break; }
  default: endPath("inconclusive", "call of unsupported external function " + I.s);
  }
done:
  Frame& G = S.st.back();
  if (I.invoke) follow(S, G, I.e1); else G.pc++;
}

static Expr* icmpE(int p, Expr* a, Expr* b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mk(EQ, 1, a, b); case CmpInst::ICMP_NE: return mkNot(mk(EQ, 1, a, b));
  case CmpInst::ICMP_ULT: return mk(ULT, 1, a, b); case CmpInst::ICMP_ULE: return mk(ULE, 1, a, b); case CmpInst::ICMP_UGT: return mk(ULT, 1, b, a); case CmpInst::ICMP_UGE: return mk(ULE, 1, b, a);
  case CmpInst::ICMP_SLT: return mk(SLT, 1, a, b); case CmpInst::ICMP_SLE: return mk(SLE, 1, a, b); case CmpInst::ICMP_SGT: return mk(SLT, 1, b, a); default: return mk(SLE, 1, b, a);
  }
}
static bool icmpC(int p, u128 a, u128 b, int w) {
  switch (p) {
  case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
  case CmpInst::ICMP_SLT: return sxt(a, w) < sxt(b, w); case CmpInst::ICMP_SLE: return sxt(a, w) <= sxt(b, w); case CmpInst::ICMP_SGT: return sxt(a, w) > sxt(b, w); default: return sxt(a, w) >= sxt(b, w);
  }
}
// the widest expression with the same unsigned value as e on this path
static Expr* under(State& S, Expr* e) {
  while (true) {
    if (e->op == ZEXT && e->k[0]->w > 1) e = e->k[0];
    else if (e->op == EXTRACT && e->c == 0 && ival(S, e->k[0]).uh <= maskw(e->w)) e = e->k[0];
    else return e; }
}
// comparison with a truncated quotient: compare the full quotient if it fits on this path
static Expr* widenCmp(State& S, Expr* e) {
  if (!e->k[0] || e->op == ITE || e->w != 1) return e;
  if (e->op == XOR && isC(e->k[1])) { Expr* x = widenCmp(S, e->k[0]); return x == e->k[0] ? e : mkNot(x); }
  if (e->op != ULT && e->op != ULE && e->op != SLT && e->op != SLE) return e;
  bool lt = e->op == ULT || e->op == SLT, sg = e->op == SLT || e->op == SLE;
  auto wide = [&](Expr* d) { return d->op == EXTRACT && d->c == 0 && d->k[0]->op == UDIV && !isC(d->k[0]->k[1]) && ival(S, d->k[0]).uh <= (sg ? maskw(d->w) >> 1 : maskw(d->w)); };
  Expr* d = lt ? e->k[0] : e->k[1]; Expr* o = lt ? e->k[1] : e->k[0];
  if (!wide(d) || isC(o) || (sg && ival(S, o).sl < 0)) return e;
  int W = d->k[0]->w; o = mk(ZEXT, W, o); d = d->k[0]; return lt ? mk(ULT, 1, d, o) : mk(ULE, 1, o, d);
}
// path-aware construction of a binary operation
static Expr* binE(State& S, Op op, int w, Expr* a, Expr* b) {
  if (!isC(a)) { const Iv& v = ival(S, a); if (v.ul == v.uh) a = mkConst(v.ul, w); }
  if (!isC(b)) { const Iv& v = ival(S, b); if (v.ul == v.uh) b = mkConst(v.ul, w); }
  if ((op == SDIV || op == SREM || op == ASHR)) { Iv x = ival(S, a), y = ival(S, b); if (x.sl >= 0 && (op == ASHR || y.sl >= 0)) op = op == SDIV ? UDIV : op == SREM ? UREM : LSHR; }
  if ((op == UDIV || op == UREM) && isC(b) && b->c) { Iv x = ival(S, a); if (x.ul / b->c == x.uh / b->c) { if (op == UDIV) return mkConst(x.ul / b->c, w); return mk(SUB, w, a, mkConst(x.ul / b->c * b->c, w)); } }
  if ((op == UDIV || op == UREM) && !isC(b) && !isC(a)) { Expr* x = under(S, a); Expr* y = under(S, b); int W = std::max<int>(std::max<int>(x->w, y->w), w);
    if (W > w) return mkExtract(mk(op, W, x->w < W ? mk(ZEXT, W, x) : x, y->w < W ? mk(ZEXT, W, y) : y), 0, w); }
  if (op == OR && w > 1) { Iv x = ival(S, a), y = ival(S, b); int bx = 0, by = 0; u128 t = x.uh; while (t) { bx++; t >>= 1; } t = y.uh; while (t) { by++; t >>= 1; } if (a->tz >= by || b->tz >= bx) op = ADD; }
  return mk(op, w, a, b);
}
static Val loadAddr(State& S, Val p, int w) {
  if (!p.e) return loadC(S, p.lo, w);
  const Iv iv = ival(S, p.e);
  if (iv.ul == iv.uh) return loadC(S, (uint64_t)iv.ul, w);
  Obj* o = findObj(S, (uint64_t)iv.ul); int n = (w + 7) / 8;
  if (optTableIte && o && iv.uh + n <= o->base + o->size && iv.ul >= o->base) {
    uint64_t stride = 1; for (int t = 0; t < std::min<int>(p.e->tz, 6); t++) stride *= 2;
    uint64_t first = ((uint64_t)iv.ul + stride - 1) / stride * stride, cnt = ((uint64_t)iv.uh - first) / stride + 1;
    if (cnt <= 1024 && cnt >= 1) {
      // balanced selection tree on the address; adjacent equal values merge
      std::function<Expr*(uint64_t, uint64_t)> f = [&](uint64_t i, uint64_t k) -> Expr* {
        if (k == 1) return ex(loadC(S, first + i * stride, w), w);
        uint64_t h = k / 2; Expr* l = f(i, h); Expr* r = f(i + h, k - h); if (l == r) return l;
        return mk(ITE, w, mk(ULT, 1, p.e, mkConst(first + (i + h) * stride, 64)), l, r); };
      return fromE(f(0, cnt));
    }
  }
  concretize(S, p, 64, "load address"); return loadC(S, p.lo, w);
}

static void runState(State* SP) {
  State& S = *SP;
  while (true) {
    Frame* F = &S.st.back(); const Inst* code = F->f->code.data(); Val* R = F->r.data();
    const Inst& I = code[F->pc];
    S.steps++; if ((++stats.steps & 0xfffff) == 0) { if (now() - t0 > maxTime) endPath("timeout", ""); }
#define G(i) ((i) >= 0 ? R[i] : consts[~(i)])
    if (debugTrace) { std::string s; raw_string_ostream os(s); I.src->print(os); fprintf(stderr, "[%s] %s\n", F->f->name.c_str(), os.str().c_str()); }
    switch (I.op) {
    case I_BIN: {
      const Val& a = G(I.a); const Val& b = G(I.b); int w = I.w;
      if (!a.e && !b.e) {
        if (w <= 64) {
          uint64_t x = a.lo, y = b.lo, r; uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1);
          switch (I.sub) {
          case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break;
          case SHL: r = y >= (unsigned)w ? 0 : x << y; break; case LSHR: r = y >= (unsigned)w ? 0 : x >> y; break;
          case UDIV: if (!y) endPath("ub", "division by zero"); r = x / y; break; case UREM: if (!y) endPath("ub", "division by zero"); r = x % y; break;
          default: if ((I.sub == SDIV || I.sub == SREM) && !y) endPath("ub", "division by zero"); if ((I.sub == SDIV || I.sub == SREM) && y == m && x == (1ull << (w - 1))) endPath("ub", "signed division overflow"); r = (uint64_t)evalOp((Op)I.sub, w, x, w, y, w, 0, 0); }
          R[I.d] = Val{r & m, 0, nullptr};
        } else {
          if ((I.sub == UDIV || I.sub == SDIV || I.sub == UREM || I.sub == SREM) && v128(b) == 0) endPath("ub", "division by zero");
          R[I.d] = cv128(evalOp((Op)I.sub, w, v128(a), w, v128(b), w, 0, 0));
        }
      } else {
        Op op = (Op)I.sub; Expr* x = ex(a, w); Expr* y = ex(b, w);
        if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
          if (!isC(y)) { Val z = fromE(mk(EQ, 1, y, mkConst(0, w))); if (z.e || z.lo) { int t = decide(S, z, [](State&, int) {}); if (t) { if (!ensureModel(S)) endPath("inconclusive", "division by zero"); endPath("ub", "division by zero"); } F = &S.st.back(); R = F->r.data(); } }
          else if (y->c == 0) endPath("ub", "division by zero");
        }
        if ((op == SHL || op == LSHR || op == ASHR) && !isC(y) && optForkShift) { Val s = fromE(y); concretize(S, s, w, "shift"); y = mkConst(s.lo, w); }
        R[I.d] = fromE(binE(S, op, w, x, y));
      }
      F->pc++; break; }
    case I_ICMP: {
      const Val& a = G(I.a); const Val& b = G(I.b);
      if (!a.e && !b.e) {
        bool r; if (I.w2 <= 64 && I.sub < CmpInst::ICMP_SGT) { switch (I.sub) { case CmpInst::ICMP_EQ: r = a.lo == b.lo; break; case CmpInst::ICMP_NE: r = a.lo != b.lo; break; case CmpInst::ICMP_UGT: r = a.lo > b.lo; break; case CmpInst::ICMP_UGE: r = a.lo >= b.lo; break; case CmpInst::ICMP_ULT: r = a.lo < b.lo; break; default: r = a.lo <= b.lo; } }
        else r = icmpC(I.sub, v128(a), v128(b), I.w2);
        R[I.d] = cv(r);
      } else { Expr* e = widenCmp(S, icmpE(I.sub, ex(a, I.w2), ex(b, I.w2))); if (!isC(e)) { const Iv& v = ival(S, e); if (v.ul == v.uh) e = mkConst(v.ul, 1); } R[I.d] = fromE(e); }
      F->pc++; break; }
    case I_FBIN: { const Val& a = G(I.a); const Val& b = G(I.b); if (a.e || b.e) R[I.d] = I.sub == 2 && &a == &b ? fivSqr(S, a, I.w) : fivBin(S, I.sub, a, b, I.w); else R[I.d] = fbin(I.sub, a, b, I.w); F->pc++; break; }
    case I_FNEG: { const Val& a = G(I.a); DI x; if (a.e) R[I.d] = fiv(S, a, I.w, x) ? mkFiv(-x.hi, -x.lo, I.w) : Val{0, 0, mkFp(FUNK, nullptr, 0, I.w)}; else R[I.d] = putFP(-getFP(a, I.w), I.w); F->pc++; break; }
    case I_FCMP: {
      const Val& a = G(I.a); const Val& b = G(I.b);
      if (a.e || b.e) {
        // integer-valued double against a constant: decide by value when conversion is monotone
        Expr* ia = a.e ? ((a.e->op == FROMINT_U || a.e->op == FROMINT_S) ? a.e : nullptr) : nullptr;
        if (ia && !b.e && ival(S, ia->k[0]).uh < ((u128)1 << 53)) {
          ld k = getFP(b, I.w2); Expr* x = ia->k[0]; int w = x->w; ld f = floorl(k); Expr* r = nullptr; bool integral = f == k;
          int p = I.sub & 7; // strip unordered
          auto K = [&](ld t) -> Expr* { return t < 0 ? nullptr : mkConst((u128)t, w); };
          if (k < 0) { bool v = p == 2 || p == 3 || p == 6; r = mkConst(v, 1); }
          else if (k >= 9007199254740992.0L) { bool v = p == 4 || p == 5 || p == 6; r = mkConst(v, 1); }
          else switch (p) { case 1: r = integral ? mk(EQ, 1, x, K(f)) : mkConst(0, 1); break; case 2: r = mk(ULT, 1, K(f), x); break; case 3: r = integral ? mk(ULE, 1, K(f), x) : mk(ULT, 1, K(f), x); break; case 4: r = integral ? mk(ULT, 1, x, K(f)) : mk(ULE, 1, x, K(f)); break; case 5: r = mk(ULE, 1, x, K(f)); break; case 6: r = integral ? mkNot(mk(EQ, 1, x, K(f))) : mkConst(1, 1); break; default: break; }
          if (r) { R[I.d] = fromE(r); F->pc++; break; }
        }
        DI dx, dy;
        if (fiv(S, a, I.w2, dx) && fiv(S, b, I.w2, dy)) { int can = ((dx.lo <= dy.hi && dy.lo <= dx.hi) ? 1 : 0) | (dx.hi > dy.lo ? 2 : 0) | (dx.lo < dy.hi ? 4 : 0), p = I.sub & 7; if ((can & p) == can) { R[I.d] = cv(1); F->pc++; break; } if (!(can & p)) { R[I.d] = cv(0); F->pc++; break; } }
        { Expr* h = havoc(S, "fcmp", 1); R = S.st.back().r.data(); R[I.d] = fromE(h); } F->pc++; break; }
      bool r; int p = I.sub; ld x = getFP(a, I.w2), y = getFP(b, I.w2); bool un = std::isnan(x) || std::isnan(y);
      r = un ? (p & 8) != 0 : ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
      R[I.d] = cv(r); F->pc++; break; }
    case I_ZEXT: { const Val& a = G(I.a); if (!a.e) R[I.d] = a; else { Expr* e = a.e; if (e->op == EXTRACT && e->c == 0 && e->w > 1 && e->k[0]->w <= I.w && ival(S, e->k[0]).uh <= maskw(e->w)) e = e->k[0]; R[I.d] = fromE(e->w == I.w ? e : mk(ZEXT, I.w, e)); } F->pc++; break; }
    case I_SEXT: { const Val& a = G(I.a); if (!a.e) R[I.d] = cv128((u128)sxt(v128(a), I.w2) & maskw(I.w)); else R[I.d] = fromE(mk(ival(S, a.e).sl >= 0 ? ZEXT : SEXT, I.w, a.e)); F->pc++; break; }
    case I_TRUNC: { const Val& a = G(I.a); if (!a.e) R[I.d] = cv128(v128(a) & maskw(I.w)); else { const Iv& v = ival(S, a.e); if (v.ul == v.uh) R[I.d] = cv128(v.ul & maskw(I.w)); else R[I.d] = fromE(mkExtract(a.e, 0, I.w)); } F->pc++; break; }
    case I_MOVE: for (int i = 0; i < I.n; i++) R[I.d + i] = G(I.a + i); F->pc++; break;
    case I_INSERT: { static std::vector<Val> t; t.resize(I.n); for (int i = 0; i < I.n; i++) t[i] = G(I.a + i); for (int i = 0; i < I.e1; i++) t[I.c + i] = G(I.b + i); for (int i = 0; i < I.n; i++) R[I.d + i] = t[i]; F->pc++; break; }
    case I_I2FP: { const Val& a = G(I.a);
      if (a.e && optFpExact && I.w == 64 && !I.src->getType()->isVectorTy()) { // few doubles in the range: fork over the exact conversion results
        const Iv v = ival(S, a.e); Expr* x = a.e;
        if ((!I.sub || v.sl >= 0) && v.ul != v.uh) {
          auto bits = [](u128 i) { double d = (double)i; uint64_t u; memcpy(&u, &d, 8); return u; };
          uint64_t b0 = bits(v.ul), b1 = bits(v.uh); u128 cnt = std::min<u128>(v.uh - v.ul, b1 - b0);
          if (cnt < (u128)optFpExact) {
            std::vector<State*> out; u128 lo = v.ul;
            while (true) {
              uint64_t b = bits(lo); u128 l = lo, h = v.uh; while (l < h) { u128 m = l + (h - l + 1) / 2; if (bits(m) == b) l = m; else h = m - 1; }
              Expr* c = mk(AND, 1, mk(ULE, 1, mkConst(lo, x->w), x), mk(ULE, 1, x, mkConst(l, x->w)));
              std::vector<u128> m; Res fr = feasible(S, c, &m); if (fr == UNKNOWN) endPath("inconclusive", "int to double");
              if (fr == SAT) { State* n2 = new State(S); if (!addC(*n2, c)) delete n2; else { n2->model = m; n2->st.back().r[I.d] = cv(b); n2->st.back().pc++; out.push_back(n2); } }
              if (l == v.uh) break; lo = l + 1;
            }
            stats.forks += out.size(); for (size_t i = out.size(); i-- > 0;) pushState(out[i]);
            throw Resched{};
          } } }
      if (a.e) { const Iv& v = ival(S, a.e); if (v.ul == v.uh) { u128 x = v.ul; R[I.d] = I.w == 64 ? putFP(I.sub ? (double)sxt(x, I.w2) : (double)x, 64) : putFP(I.sub ? (ld)sxt(x, I.w2) : (ld)x, I.w); } else { bool nn = !I.sub || v.sl >= 0; R[I.d] = Val{0, 0, nn ? mkFp(I.sub ? FROMINT_S : FROMINT_U, a.e, 0, I.w) : mkFp(FUNK, nullptr, 0, I.w)}; if (!nn && I.w == 64) R[I.d] = mkFiv((double)v.sl, (double)v.sh, 64); } }
      else { u128 x = v128(a); R[I.d] = I.w == 64 ? putFP(I.sub ? (double)sxt(x, I.w2) : (double)x, 64) : putFP(I.sub ? (ld)sxt(x, I.w2) : (ld)x, I.w); }
      F->pc++; break; }
    case I_FPCONV: { const Val& a = G(I.a); if (a.e) { if (a.e->op == FROMINT_U || a.e->op == FROMINT_S) R[I.d] = Val{0, 0, mkFp(a.e->op, a.e->k[0], 0, I.w)}; else if (a.e->op == FROOT) R[I.d] = Val{0, 0, mkFp(FROOT, a.e->k[0], a.e->c, I.w)}; else R[I.d] = Val{0, 0, mkFp(FUNK, nullptr, 0, I.w)}; } else R[I.d] = putFP(getFP(a, I.w2), I.w); F->pc++; break; }
    case I_FP2I: {
      const Val& a = G(I.a);
      if (a.e) {
        Expr* e = a.e;
        if (e->op == FROOT) { // estimate of a root: floor(root), or off by one where the floating point error allows it
          Expr* x = e->k[0]; int n = (int)e->c;
          { auto it = S.roots.find({x, n}); if (it != S.roots.end()) { Val r = it->second; R[I.d] = !r.e ? cv128(v128(r) & maskw(I.w)) : fromE(I.w < 128 ? mkExtract(r.e, 0, I.w) : r.e); F->pc++; break; } }
          const Iv v = ival(S, x); u128 rl = iroot128(v.ul, n), rh = iroot128(v.uh, n);
          int prec = n == 2 ? 51 : 46;
          std::vector<State*> out;
          auto cand = [&](Expr* c, std::function<void(State&)> f) {
            std::vector<u128> m; Res fr = feasible(S, c, &m); if (fr == UNKNOWN) endPath("inconclusive", "root"); if (fr == UNSAT) return;
            State* n2 = new State(S); if (!addC(*n2, c)) { delete n2; return; } n2->model = m; f(*n2); n2->st.back().pc++; out.push_back(n2); };
          { u128 q = 1; bool ov = false; for (int i = 0; i < n; i++) ov |= __builtin_mul_overflow(q, rh + 2, &q);
            if (ov || (q >> prec) >= q / (rh + 2)) endPath("inconclusive", "root estimate may be off by more than one"); }
          if (rh - rl <= 300) {
            for (u128 r = rl; r <= rh; r++) {
              u128 p = 1, q = 1; for (int i = 0; i < n; i++) { p *= r; q *= r + 1; }
              auto ge = [&](u128 b) { return b > maskw(x->w) ? mkConst(0, 1) : mk(ULE, 1, mkConst(b, x->w), x); };
              auto lt = [&](u128 b) { return b > maskw(x->w) ? mkConst(1, 1) : mk(ULT, 1, x, mkConst(b, x->w)); };
              Expr* c = mk(AND, 1, ge(p), lt(q));
              auto put = [&](u128 val) { return [&, val](State& T) { T.st.back().r[I.d] = cv128(val & maskw(I.w)); T.roots[{x, n}] = cv128(val); }; };
              if (!isFalse(c)) cand(c, put(r));
              if (q >> prec) { Expr* h = mk(AND, 1, c, ge(q - (q >> prec))); if (!isFalse(h)) cand(h, put(r + 1)); }
              if (n > 2 && r > 0) { Expr* h = mk(AND, 1, c, lt(p + (p >> prec) + 1)); if (!isFalse(h)) cand(h, put(r - 1)); }
            }
          } else {
            auto pw = [&](Expr* a) { Expr* t = a; for (int i = 1; i < n; i++) t = mk(MUL, 128, t, a); return t; };
            Expr* X = mk(ZEXT, 128, x);
            Expr* one = mkConst(1, 128); Expr* sl = mk(ADD, 128, mk(UDIV, 128, X, mkConst((u128)1 << prec, 128)), one);
            for (int dl = -1; dl <= 1; dl++) { // h: the exact root, the estimate is h + dl
              if (dl < 0 && n == 2) continue;
              Expr* h = mkVar("havoc_root", 128, dl < 0 && rl == 0 ? 1 : rl, rh, true); S.vars.push_back(h); if (S.model.size() <= (size_t)h->c) S.model.resize((size_t)h->c + 1, 0); S.model[(size_t)h->c] = h->iv.ul; R = S.st.back().r.data();
              Expr* p0 = pw(h); Expr* p1 = pw(mk(ADD, 128, h, one));
              Expr* c = mk(AND, 1, mk(ULE, 1, p0, X), mk(ULT, 1, X, p1));
              if (dl > 0) c = mk(AND, 1, c, mk(ULE, 1, p1, mk(ADD, 128, X, sl)));
              if (dl < 0) c = mk(AND, 1, c, mk(ULE, 1, X, mk(ADD, 128, p0, sl)));
              Expr* h2 = mk(ADD, 128, h, mkConst((u128)(i128)dl, 128)); Expr* hv = I.w < 128 ? mkExtract(h2, 0, I.w) : h2;
              cand(c, [&](State& T) { T.st.back().r[I.d] = fromE(hv); T.roots[{x, n}] = fromE(h2); });
            }
          }
          stats.forks += out.size(); for (size_t i = out.size(); i-- > 0;) pushState(out[i]);
          throw Resched{};
        }
        if ((e->op == FROMINT_U || e->op == FROMINT_S) && ival(S, e->k[0]).uh < ((u128)1 << 53)) { Expr* x = e->k[0]; R[I.d] = fromE(x->w > I.w ? mkExtract(x, 0, I.w) : mk(ZEXT, I.w, x)); }
        else if (DI d; fiv(S, a, I.w2, d) && d.lo > -1 && d.hi < std::ldexp(1.0, I.w - (I.sub ? 1 : 0))) { Expr* h = havoc(S, "fp2i", I.w); R = S.st.back().r.data(); u128 l = (u128)d.lo, u = (u128)d.hi;
          if (l == u) R[I.d] = cv128(l); else { if (!addC(S, mk(AND, 1, mk(ULE, 1, mkConst(l, I.w), h), mk(ULE, 1, h, mkConst(u, I.w))))) endPath("inconclusive", "fp2i range"); S.model[(size_t)h->c] = l; R = S.st.back().r.data(); R[I.d] = fromE(h); } }
        else { Expr* h = havoc(S, "fp2i", I.w); R = S.st.back().r.data(); R[I.d] = fromE(h); }
      } else { ld x = getFP(a, I.w2); R[I.d] = cv128((I.sub ? (u128)(i128)x : (u128)x) & maskw(I.w)); }
      F->pc++; break; }
    case I_LOAD: { Val p = G(I.a); if (I.leaves.size() == 1) { if (!p.e) R[I.d] = loadC(S, p.lo, I.leaves[0].second); else { Val v = loadAddr(S, p, I.leaves[0].second); R[I.d] = v; } } else { concretize(S, p, 64, "aggregate load"); for (size_t i = 0; i < I.leaves.size(); i++) R[I.d + i] = loadC(S, p.lo + I.leaves[i].first, I.leaves[i].second); } F->pc++; break; }
    case I_STORE: { Val p = G(I.b); if (p.e) concretize(S, p, 64, "store address"); for (size_t i = 0; i < I.leaves.size(); i++) storeC(S, p.lo + I.leaves[i].first, I.leaves[i].second, G(I.a + (int)i)); F->pc++; break; }
    case I_GEP: {
      const Val& b = G(I.a); uint64_t off = (uint64_t)I.imm; bool sym = b.e; for (auto& g : I.gep) if (G(g.first).e) sym = true;
      if (!sym) { uint64_t a = b.lo + off; for (size_t i = 0; i < I.gep.size(); i++) { uint64_t v = G(I.gep[i].first).lo; int w = I.gepw[i]; if (w < 64) v = (uint64_t)(int64_t)sxt(v, w); a += v * I.gep[i].second; } R[I.d] = cv(a); }
      else { Expr* a = ex(b, 64); a = mk(ADD, 64, a, mkConst(off, 64)); for (size_t i = 0; i < I.gep.size(); i++) { Val v = G(I.gep[i].first); int w = I.gepw[i]; Expr* e = ex(v, w); if (w < 64) e = mk(ival(S, e).sl >= 0 ? ZEXT : SEXT, 64, e); else if (w > 64) e = mkExtract(e, 0, 64); a = mk(ADD, 64, a, mk(MUL, 64, e, mkConst(I.gep[i].second, 64))); } R[I.d] = fromE(a); }
      F->pc++; break; }
    case I_ALLOCA: { Val n = G(I.a); concretize(S, n, 64, "alloca"); uint64_t a = allocObj(S, (uint64_t)I.imm * n.lo, 1, "stack", I.e1); F->allocas.push_back(a); R[I.d] = cv(a); F->pc++; break; }
    case I_BR: follow(S, *F, I.e1); break;
    case I_CBR: { const Val& c = G(I.a); if (!c.e) { follow(S, *F, (c.lo & 1) ? I.e1 : I.e2); break; } Val cc = c;
      auto narrow = [&](State& T, bool t) { if (I.w2 != 64) return; std::vector<Val>& r = T.st.back().r; Val a = I.b >= 0 ? r[I.b] : consts[~I.b], b = I.c >= 0 ? r[I.c] : consts[~I.c]; fivRefine(T, &a, &b, I.sub, t); if (I.b >= 0) r[I.b] = a; if (I.c >= 0) r[I.c] = b; };
      int t = decide(S, cc, [&](State& T, int tv) { narrow(T, tv); follow(T, T.st.back(), tv ? I.e1 : I.e2); }); narrow(S, t); follow(S, S.st.back(), t ? I.e1 : I.e2); break; }
    case I_SWITCH: {
      Val c = G(I.a);
      if (c.e) { const Iv& v = ival(S, c.e); if (v.ul == v.uh) c = cv128(v.ul); }
      if (!c.e) { int e = I.e1; for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == v128(c)) { e = I.edges[i]; break; } follow(S, *F, e); break; }
      Expr* none = mkConst(1, 1); std::vector<State*> out;
      // one alternative per run of consecutive case values with the same target
      std::vector<std::pair<Expr*, int>> alts; std::vector<size_t> ord(I.cases.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
      std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return I.cases[a] < I.cases[b]; });
      for (size_t i = 0; i < ord.size();) {
        size_t j = i; while (j + 1 < ord.size() && I.cases[ord[j + 1]] == I.cases[ord[j]] + 1 && F->f->edges[I.edges[ord[j + 1]]].target == F->f->edges[I.edges[ord[i]]].target) j++;
        Expr* lo = mkConst(I.cases[ord[i]], I.w2); Expr* hi = mkConst(I.cases[ord[j]], I.w2);
        Expr* q = i == j ? mk(EQ, 1, c.e, lo) : mk(AND, 1, mk(ULE, 1, lo, c.e), mk(ULE, 1, c.e, hi));
        alts.push_back({q, I.edges[ord[i]]}); none = mk(AND, 1, none, mkNot(q)); i = j + 1; }
      alts.push_back({none, I.e1});
      for (auto& al : alts) { if (isFalse(al.first)) continue; std::vector<u128> m; Res r = feasible(S, al.first, &m); if (r == UNKNOWN) endPath("inconclusive", "switch"); if (r == UNSAT) continue; State* n = new State(S); if (!addC(*n, al.first)) { delete n; continue; } n->model = m; follow(*n, n->st.back(), al.second); out.push_back(n); }
      stats.forks += out.empty() ? 0 : out.size() - 1; for (size_t i = out.size(); i-- > 0;) pushState(out[i]); throw Resched{}; }
    case I_SELECT: {
      const Val& c = G(I.a); int t = -1; if (!c.e) t = c.lo & 1; else { const Iv& v = ival(S, c.e); if (v.ul == v.uh) t = (int)v.ul; }
      if (t < 0) { const Val a = G(I.b), b = G(I.c); bool fp = (a.e && a.e->fp) || (b.e && b.e->fp) || (I.n != 1) || I.w == 0 || I.src->getType()->isFloatingPointTy();
        if (I.src->getType()->isDoubleTy()) { // min and max of doubles
          auto* si = cast<SelectInst>(I.src); auto* fc = dyn_cast<FCmpInst>(si->getCondition()); DI x, y;
          if (fc && fiv(S, a, 64, x) && fiv(S, b, 64, y)) { bool same = fc->getOperand(0) == si->getTrueValue() && fc->getOperand(1) == si->getFalseValue(), swp = fc->getOperand(0) == si->getFalseValue() && fc->getOperand(1) == si->getTrueValue(); int p = fc->getPredicate() & 6;
            if ((same || swp) && (p == 2 || p == 4)) { bool mn = (p == 4) == same; R[I.d] = mn ? mkFiv(std::min(x.lo, y.lo), std::min(x.hi, y.hi), 64) : mkFiv(std::max(x.lo, y.lo), std::max(x.hi, y.hi), 64); F->pc++; break; } } }
        if (fp || optForkSelect) { Val cc = c; int ra = INT_MIN, rb = INT_MIN, pr = 0; // operands of the comparison, if it compares doubles
          if (I.w2 == 64 && I.cases.size() == 2) { ra = (int)(i128)I.cases[0]; rb = (int)(i128)I.cases[1]; pr = I.sub; }
          auto pick = [&](State& T, int tv) { Frame& H = T.st.back(); Val* q = H.r.data(); auto at = [&](int s) { return s >= 0 ? q[s] : consts[~s]; };
            if (ra != INT_MIN) { Val x = at(ra), y = at(rb); fivRefine(T, &x, &y, pr, tv); if (ra >= 0) q[ra] = x; if (rb >= 0) q[rb] = y; }
            for (int i = 0; i < I.n; i++) q[I.d + i] = at((tv ? I.b : I.c) + i); H.pc++; };
          t = decide(S, cc, [&](State& T, int tv) { pick(T, tv); }); pick(S, t); break; }
        else { R[I.d] = fromE(mk(ITE, I.w, c.e, ex(a, I.w), ex(b, I.w))); F->pc++; break; } }
      for (int i = 0; i < I.n; i++) R[I.d + i] = G((t ? I.b : I.c) + i); F->pc++; break; }
    case I_UNREACH: endPath("ub", "unreachable executed");
    case I_LANDING: endPath("inconclusive", "landingpad reached directly");
    case I_RESUME: { // continue unwinding from the caller
      S.excObj = G(I.a).lo; popFrame(S); if (S.st.empty()) endPath("exception", "uncaught exception " + tiName(S.excTi)); unwind(S); break; }
    case I_BUILTIN: builtin(S, *F, I); break;
    case I_CALL: {
      Func* fn = I.fn;
      if (!fn) { Val p = G(I.a); concretize(S, p, 64, "call target"); auto it = funcByAddr.find(p.lo); if (it == funcByAddr.end()) endPath("memory", "call through a bad function pointer"); fn = it->second; int b = builtinOf(fn->f); if (b != B_NONE) { static std::map<std::pair<const Inst*, Func*>, Inst*> tmp; auto& q = tmp[{&I, fn}]; if (!q) { q = new Inst(I); q->op = I_BUILTIN; q->bi = b; q->s = fn->name; } builtin(S, *F, *q); break; } }
      std::vector<Val> av; for (size_t i = 0; i < I.args.size(); i++) { if (I.argw[i] > 0) av.push_back(G(I.args[i])); else for (int j = 0; j < -I.argw[i]; j++) av.push_back(G(I.args[i] + j)); }
      callFunc(S, fn, I, av); break; }
    case I_RET: {
      static std::vector<Val> rv; rv.clear(); for (int i = 0; i < I.n; i++) rv.push_back(G(I.a + i));
      popFrame(S);
      if (S.st.empty()) return;
      Frame& C = S.st.back(); const Inst& CI = C.f->code[C.pc];
      if (CI.d >= 0) for (int i = 0; i < (int)rv.size() && i < std::max(1, CI.n); i++) C.r[CI.d + i] = rv[i];
      if (CI.invoke) follow(S, C, CI.e1); else C.pc++;
      break; }
    case I_ATOMRMW: { Val p = G(I.a); concretize(S, p, 64, "atomic"); Val old = loadC(S, p.lo, I.w); Expr* o = ex(old, I.w); Expr* v = ex(G(I.b), I.w); Expr* n; switch (I.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mk(ADD, I.w, o, v); break; case AtomicRMWInst::Sub: n = mk(SUB, I.w, o, v); break; case AtomicRMWInst::And: n = mk(AND, I.w, o, v); break; case AtomicRMWInst::Or: n = mk(OR, I.w, o, v); break; default: endPath("inconclusive", "atomicrmw"); } storeC(S, p.lo, I.w, fromE(n)); R[I.d] = old; F->pc++; break; }
    case I_CMPXCHG: { Val p = G(I.a); concretize(S, p, 64, "atomic"); Val old = loadC(S, p.lo, I.w); Val eq = fromE(mk(EQ, 1, ex(old, I.w), ex(G(I.b), I.w))); concretize(S, eq, 1, "cmpxchg"); if (eq.lo) storeC(S, p.lo, I.w, G(I.c)); R[I.d] = old; R[I.d + 1] = eq; F->pc++; break; }
    case I_ASMDIV: { // x86 "div r64": rdx:rax / r -> rax, rdx.  outputs {a},{d}
      // operand order follows the constraint string; inputs: find the ones tied to a and d
      std::vector<std::string> cs; { std::stringstream ss(I.s); std::string t; while (std::getline(ss, t, ',')) cs.push_back(t); }
      std::vector<std::string> outs, ins; for (auto& c : cs) { if (c[0] == '=') outs.push_back(c.substr(1)); else if (c[0] != '~') ins.push_back(c); }
      Val lo{}, hi{}, dv{}; bool gl = false, gh = false; 
      for (size_t i = 0; i < ins.size() && i < I.args.size(); i++) { std::string c = ins[i]; if (isdigit(c[0])) c = outs[c[0] - '0']; if (c.find("{ax}") != std::string::npos || c == "a") { lo = G(I.args[i]); gl = true; } else if (c.find("{dx}") != std::string::npos || c == "d") { hi = G(I.args[i]); gh = true; } else dv = G(I.args[i]); }
      if (!gl || !gh || outs.size() != 2) endPath("inconclusive", "inline asm " + I.s);
      int w = I.argw[0]; if (w != 64) endPath("inconclusive", "inline asm width");
      Expr* d = ex(dv, 64); Expr* h = ex(hi, 64);
      Val ovf = fromE(mk(ULE, 1, d, h)); if (ovf.e || ovf.lo) { int t = ovf.e ? decide(S, ovf, [](State&, int) {}) : 1; if (t) { ensureModel(S); endPath("ub", "div instruction overflow (SIGFPE)"); } F = &S.st.back(); R = F->r.data(); }
      Expr* n = mk(ADD, 128, mk(MUL, 128, mk(ZEXT, 128, h), mkConst((u128)1 << 64, 128)), mk(ZEXT, 128, ex(lo, 64))); Expr* dd = mk(ZEXT, 128, d);
      // simplify a rebuilt 128-bit value
      Expr* q = mkExtract(binE(S, UDIV, 128, n, dd), 0, 64); Expr* r = mkExtract(binE(S, UREM, 128, n, dd), 0, 64);
      for (int i = 0; i < 2; i++) { bool isA = outs[i].find("ax") != std::string::npos || outs[i] == "a" || outs[i] == "&a"; R[I.d + i] = fromE(isA ? q : r); }
      F->pc++; break; }
    case I_UNSUP: endPath("inconclusive", "unsupported instruction " + I.s + " in " + F->f->name);
    }
#undef G
  }
}

static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char** argv) {
  std::string file, entry, outFile; t0 = now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "-e") entry = nxt(); else if (a == "-o") outFile = nxt(); else if (a == "-p") { std::stringstream ss(nxt()); std::string t; while (std::getline(ss, t, ',')) params.push_back(std::stoll(t)); }
    else if (a == "--time") maxTime = std::stod(nxt()); else if (a == "--paths") maxPaths = std::stoull(nxt()); else if (a == "--bv-first") g_cfg.bv_first = true; else if (a == "--no-bv") g_cfg.no_bv = true; else if (a == "--no-lia") g_cfg.no_lia = true;
    else if (a == "--lia-ms") g_cfg.lia_ms = std::stoi(nxt()); else if (a == "--nia-ms") g_cfg.nia_ms = std::stoi(nxt()); else if (a == "--bv-ms") g_cfg.bv_ms = std::stoi(nxt()); else if (a == "--fork-select") optForkSelect = true; else if (a == "--no-fork-shift") optForkShift = false; else if (a == "--fork-cap") optForkCap = std::stoull(nxt()); else if (a == "--fp-exact") optFpExact = std::stoull(nxt()); else if (a == "--no-table-ite") optTableIte = false; else if (a == "--poly") g_poly = true;
    else if (a == "--max-viol") maxViol = std::stoi(nxt()); else if (a == "--samples") maxSamples = std::stoi(nxt()); else if (a == "--trace") debugTrace = true;
    else file = a;
  }
  SMDiagnostic err; mod = parseIRFile(file, err, ctx); if (!mod) { err.print("symx", errs()); return 3; }
  DL = &mod->getDataLayout(); initBi();
  State* S = new State();
  for (auto& f : *mod) getFunc(&f);
  for (auto& g : mod->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; bool ext = !g.hasInitializer(); if (ext) sz = std::max<uint64_t>(sz, 64) + 512;
    uint64_t a = allocObj(*S, sz, 0, "global", g.getAlign() ? g.getAlign()->value() : 16); gaddr[&g] = a; gname[a] = g.getName().str();
    S->objs.back().second.p->name = strdup(g.getName().str().c_str());
  }
  for (auto& g : mod->globals()) if (g.hasInitializer()) { Obj* o = findObj(*S, gaddr[&g]); initMem(o->b, 0, g.getInitializer()); }
  for (auto& g : mod->globals()) if (g.isConstant()) findObj(*S, gaddr[&g])->ro = true;
  std::vector<std::pair<int, Func*>> ctors;
  if (auto* gc = mod->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), getFunc(f)}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  static Inst dummy; dummy.d = -1;
  auto fail = [&](const std::string& m) { fprintf(stderr, "symx: %s\n", m.c_str()); exit(3); };
  try { for (auto& c : ctors) { callFunc(*S, c.second, dummy, {}); runState(S); } } catch (EndPath& e) { fail("constructor: " + e.o.kind + " " + e.o.msg + " in " + (S->st.empty() ? "" : S->st.back().f->name)); } catch (Resched&) { fail("constructor forked"); }
  Function* ef = mod->getFunction(entry); if (!ef) fail("no entry " + entry);
  callFunc(*S, getFunc(ef), dummy, {});
  pushState(S);
  std::map<std::string, uint64_t> ends; std::vector<std::string> samples; double lastp = now();
  auto sample = [&](State& T) {
    if (nsamples >= maxSamples) return; 
    // spread: powers of two and then every so often
    if (stats.paths > 16 && (stats.paths & (stats.paths - 1)) && stats.paths % 37) return;
    for (Expr* v : T.vars) if (g_vars[(size_t)v->c].havoc) return;
    if (!ensureModel(T)) return; nsamples++;
    std::string s = "{\"vals\":["; bool f = true; for (Expr* v : T.vars) { s += std::string(f ? "" : ",") + "[" + js(g_vars[(size_t)v->c].name) + ",\"" + u128s(T.model[(size_t)v->c]) + "\"]"; f = false; }
    s += "],\"obs\":["; f = true; EvalMemo memo; for (size_t i = 0; i < T.obs.size(); i++) { Val& o = T.obs[i].second; u128 x = o.e ? evalExpr(o.e, T.model, memo) : v128(o); s += std::string(f ? "" : ",") + "[" + js(T.obs[i].first) + ",\"" + u128s(x) + "\"]"; f = false; }
    s += "]}"; samples.push_back(s); };
  bool stop = false;
  while (!work.empty() && !stop) {
    State* s = work.back(); work.pop_back();
    if (debugTrace) fprintf(stderr, "--- state\n");
    try { runState(s); stats.paths++; ends["done"]++; for (auto& c : s->covers) covers[c]++; sample(*s); }
    catch (Resched&) {}
    catch (EndPath& e) {
      stats.paths++; std::string k = e.o.kind; ends[k]++;
      if (k == "violated" || k == "infeasible" || k == "exit") { for (auto& c : s->covers) covers[c]++; }
      else if (k == "timeout") { inconclusive.push_back("time limit"); stop = true; }
      else if (k == "inconclusive") { std::string st; for (auto& x : stackOf(*s)) st += " < " + x; inconclusive.push_back(e.o.msg + st); if (inconclusive.size() > 20) stop = true; }
      else { // memory, ub, abort, exception: a violation of the implicit properties
        if (ensureModel(*s)) { if (s->st.empty()) { } report(*s, k, e.o.msg, s->model); } else inconclusive.push_back("no model for " + k + " " + e.o.msg); }
    }
    delete s;
    if ((int)violations.size() >= maxViol) stop = true;
    if (stats.paths >= maxPaths) { inconclusive.push_back("path limit"); break; }
    if (now() - t0 > maxTime && !work.empty()) { inconclusive.push_back("time limit"); break; }
    if (getenv("SYMX_PROGRESS") && now() - lastp > 5) { lastp = now(); fprintf(stderr, "[%.0fs] paths %llu work %zu steps %llu queries %llu (%.1fs) forks %llu exprs %zu\n", now() - t0, (unsigned long long)stats.paths, work.size(), (unsigned long long)stats.steps, (unsigned long long)g_smt.queries, g_smt.time, (unsigned long long)stats.forks, g_nexpr); }
  }
  if (getenv("SYMX_FORKS")) { std::vector<std::pair<uint64_t, std::string>> v; for (auto& p : forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t k = 0; k < v.size() && k < 15; k++) fprintf(stderr, "fork %llu%s\n", (unsigned long long) v[k].first, v[k].second.c_str()); }
  std::ostringstream o; o << "{\n\"paths\":" << stats.paths << ",\"steps\":" << stats.steps << ",\"forks\":" << stats.forks << ",\"asserts\":" << stats.asserts << ",\"symbolic_asserts\":" << stats.symAsserts << ",\"queries\":" << g_smt.queries << ",\"sat\":" << g_smt.sat << ",\"unsat\":" << g_smt.unsat << ",\"unknown\":" << g_smt.unknown << ",\"finite_domain\":" << nfd << ",\"lia\":" << g_smt.lia << ",\"nia\":" << g_smt.nia << ",\"bv\":" << g_smt.bv << ",\"solver_s\":" << g_smt.time << ",\"max_query_s\":" << g_smt.maxq << ",\"wall_s\":" << now() - t0 << ",\"unfinished\":" << work.size();
  o << ",\n\"ends\":{"; bool f = true; for (auto& p : ends) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
  o << "},\n\"covers\":{"; f = true; for (auto& p : covers) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
  o << "},\n\"assertions\":{"; f = true; for (auto& p : assertStat) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
  o << "},\n\"functions\":["; f = true; for (auto& p : funcs) if (p.second->count && p.second->repo) { o << (f ? "" : ",") << js(p.second->name); f = false; }
  o << "],\n\"inconclusive\":["; f = true; for (auto& s : inconclusive) { o << (f ? "" : ",\n") << js(s); f = false; }
  o << "],\n\"violations\":["; f = true; for (auto& v : violations) { o << (f ? "" : ",\n") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"vals\":["; bool g = true; for (auto& p : v.vals) { o << (g ? "" : ",") << "[" << js(p.first) << ",\"" << u128s(p.second) << "\"]"; g = false; } o << "],\"stack\":["; g = true; for (auto& p : v.stack) { o << (g ? "" : ",") << js(p); g = false; } o << "]}"; f = false; }
  o << "],\n\"samples\":["; f = true; for (auto& s : samples) { o << (f ? "" : ",\n") << s; f = false; } o << "]\n}\n";
  if (outFile.empty()) std::cout << o.str(); else { std::ofstream of(outFile); of << o.str(); }
  fflush(stdout);
  _Exit(violations.size() ? 1 : inconclusive.size() ? 2 : 0);
}
