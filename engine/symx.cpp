// symx: symbolic executor for LLVM 18 bitcode.
#include "expr.h"
#include "smt.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <set>
#include <map>
#include <deque>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace llvm;
typedef long double ld;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { uint64_t lo, hi; Expr* e; };
static inline Val cv(uint64_t lo, uint64_t hi = 0) { return Val{lo, hi, nullptr}; }
static inline Val cv128(u128 v) { return Val{(uint64_t)v, (uint64_t)(v >> 64), nullptr}; }
static inline u128 v128(const Val& v) { return ((u128)v.hi << 64) | v.lo; }
static inline Expr* ex(const Val& v, int w) { return v.e ? v.e : mkConst(v128(v), w); }
static inline Val fromE(Expr* e) { if (e->op == CONST) return cv128(e->c); return Val{0, 0, e}; }

// ---------------------------------------------------------------- memory
struct Obj {
  uint64_t base, size; int rc = 0; bool ro = false, freed = false; uint8_t kind = 0; // 0 global 1 stack 2 heap
  std::vector<uint8_t> b; std::map<uint32_t, std::pair<Expr*, uint8_t>> sym; const char* name = "";
};
struct ObjP {
  Obj* p = nullptr;
  ObjP() {} ObjP(Obj* q) : p(q) { if (p) p->rc++; }
  ObjP(const ObjP& o) : p(o.p) { if (p) p->rc++; }
  ObjP(ObjP&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjP& operator=(ObjP o) { std::swap(p, o.p); return *this; }
  ~ObjP() { if (p && --p->rc == 0) delete p; }
};

// ---------------------------------------------------------------- code
enum IOp : uint8_t { I_BIN, I_ICMP, I_FBIN, I_FNEG, I_FCMP, I_ZEXT, I_SEXT, I_TRUNC, I_MOVE, I_FP2I, I_I2FP, I_FPCONV, I_LOAD, I_STORE, I_GEP, I_ALLOCA,
  I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_SELECT, I_UNREACH, I_LANDING, I_RESUME, I_BUILTIN, I_INSERT, I_ATOMRMW, I_CMPXCHG, I_ASMDIV, I_UNSUP };
struct Edge { int target; std::vector<std::array<int, 2>> moves; }; // dst, src
struct Func;
struct Inst {
  IOp op; uint8_t sub = 0; uint8_t w = 0, w2 = 0; int d = -1, a = 0, b = 0, c = 0; int n = 1; u128 imm = 0;
  int e1 = -1, e2 = -1; // edges
  std::vector<int> args; std::vector<int> argw; std::vector<u128> cases; std::vector<int> edges; std::vector<std::pair<int, uint64_t>> gep; std::vector<uint8_t> gepw;
  Func* fn = nullptr; int bi = -1; const Instruction* src = nullptr; std::vector<std::pair<int,int>> leaves; // offset,width
  bool invoke = false; std::string s;
};
struct Func { Function* f; std::vector<Inst> code; int nslots = 0; std::vector<Edge> edges; std::vector<int> argslots; std::vector<int> argn; bool ready = false; uint64_t addr = 0; uint64_t count = 0; std::string name; bool repo = false; };

static LLVMContext ctx; static std::unique_ptr<Module> mod; static const DataLayout* DL;
static std::vector<Val> consts; static std::map<std::pair<uint64_t, uint64_t>, int> constIdx;
static std::map<const Function*, Func*> funcs; static std::map<uint64_t, Func*> funcByAddr;
static std::map<const GlobalValue*, uint64_t> gaddr; static std::map<uint64_t, std::string> gname;

struct Frame { Func* f; int pc; std::vector<Val> r; int ret; const Inst* call; std::vector<uint64_t> allocas; bool nounwindRet = false; };
struct Outcome { std::string kind, msg; };
struct State {
  std::vector<Frame> st; std::vector<std::pair<uint64_t, ObjP>> objs; uint64_t brk = 0x100000000ull;
  std::unordered_map<Expr*, Iv> facts, memo; std::vector<Expr*> pc; std::vector<u128> model; bool hasModel = true;
  std::vector<Expr*> vars; std::vector<std::pair<std::string, Val>> obs; std::vector<int> obsw; std::set<std::string> covers; std::vector<std::string> trace;
  uint64_t excObj = 0, excTi = 0; uint64_t steps = 0; int nforks = 0; uint64_t dead = 0; int seq = 0;
  std::vector<std::pair<uint64_t,uint64_t>> caught; std::map<std::pair<Expr*, int>, Val> roots; // chosen floating point root estimates: the same argument gives the same estimate
  // race detection
  int ompThread = -1; 
};
struct Violation { std::string kind, msg; std::vector<std::pair<std::string, u128>> vals; std::string where; std::vector<std::string> stack; };

static struct { uint64_t paths = 0, steps = 0, forks = 0, asserts = 0, symAsserts = 0, concAsserts = 0, dropped = 0; } stats;
static std::vector<Violation> violations; static std::vector<std::string> inconclusive; static std::map<std::string, uint64_t> covers; static std::map<std::string,uint64_t> assertStat;
static uint64_t maxPaths = 2000000, maxSteps = 40000000000ull; static double maxTime = 600; static int maxViol = 1; static int sampleEvery = 1, maxSamples = 40;
static bool optIte = true; static uint64_t optForkCap = 4096; static uint64_t optFpExact = 0; static bool optForkSelect = false, optForkShift = true, optTableIte = true; static bool optFpHavoc = false;
static std::vector<long long> params; static std::string samplesOut; static int nsamples = 0; static double t0;
static bool debugTrace = false;

struct Resched {}; struct EndPath { Outcome o; };
[[noreturn]] static void endPath(const char* k, const std::string& m) { throw EndPath{{k, m}}; }

// ---------------------------------------------------------------- intervals
static const Iv& ival(State& S, Expr* e) {
  if (e->op == CONST || e->fp) return e->iv;
  auto it = S.memo.find(e); if (it != S.memo.end()) return it->second;
  std::vector<std::pair<Expr*, int>> st; st.push_back({e, 0});
  while (!st.empty()) {
    Expr* x = st.back().first; int i = st.back().second;
    if (x->op == CONST || S.memo.count(x)) { st.pop_back(); continue; }
    if (i < 3 && x->k[i]) { st.back().second++; if (x->k[i]->op != CONST) st.push_back({x->k[i], 0}); continue; }
    auto G = [&](Expr* y) -> const Iv* { if (!y) return nullptr; if (y->op == CONST) return &y->iv; return &S.memo.find(y)->second; };
    Iv v = ivOp(x, G(x->k[0]), G(x->k[1]), G(x->k[2])); bool emp;
    v = ivMeet(v, x->iv, x->w, emp);
    auto f = S.facts.find(x); if (f != S.facts.end()) { Iv m = ivMeet(v, f->second, x->w, emp); if (!emp) v = m; else v = f->second; }
    S.memo[x] = v; st.pop_back();
  }
  return S.memo.find(e)->second;
}
// narrow e to iv.  returns false if empty.  exact is cleared if the fact on the variables does not capture it
static bool narrow(State& S, Expr* e, Iv n, bool& exact, int depth = 0) {
  bool emp; Iv cur = ival(S, e);
  Iv m = ivMeet(cur, n, e->w, emp);
  if (emp) return false;
  if (e->op == CONST) return true;
  if (m.ul == cur.ul && m.uh == cur.uh && m.sl == cur.sl && m.sh == cur.sh && e->op != VAR) { /* nothing new */ }
  S.facts[e] = m; S.memo.clear();
  if (e->op == VAR) return true;
  Expr* A = e->k[0]; Expr* B = e->k[1]; u128 mk_ = maskw(e->w);
  bool lossS, lossU; // is the signed (unsigned) part of m not implied by the other part?
  { Iv u = fullIv(e->w); u.ul = m.ul; u.uh = m.uh; ivNorm(u, e->w); lossS = u.sl < m.sl || u.sh > m.sh;
    Iv q = fullIv(e->w); q.sl = m.sl; q.sh = m.sh; ivNorm(q, e->w); lossU = q.ul < m.ul || q.uh > m.uh; }
  if (e->w > 1) { if (e->op == SEXT) { if (lossU) exact = false; } else if (lossS && e->op != SUB) exact = false; }
  if (depth > 60) { exact = false; return true; }
  switch (e->op) {
  case ADD: if (isC(B)) { Iv a = ival(S, A); u128 c = B->c;
      // map back when no wrap ambiguity
      Iv t = fullIv(e->w);
      if (a.uh + c >= c && a.uh + c <= mk_) { // no wrap unsigned
        t.ul = m.ul >= c ? m.ul - c : 0; if (m.uh < c) return false; t.uh = m.uh - c; return narrow(S, A, t, exact, depth + 1); }
      if (a.ul >= ((0 - c) & mk_) && c) { u128 d = (0 - c) & mk_; // always wraps: e = a - d
        if (m.uh > mk_ - d) t.uh = mk_; else t.uh = m.uh + d; t.ul = m.ul + d; if (t.ul > mk_) return false; return narrow(S, A, t, exact, depth + 1); }
      { i128 sc = sxt(c, e->w), l, h; if (!__builtin_add_overflow(a.sl, sc, &l) && !__builtin_add_overflow(a.sh, sc, &h) && l >= sminw(e->w) && h <= smaxw(e->w)) {
          i128 x, y; exact = exact && !lossU; if (!__builtin_sub_overflow(m.sl, sc, &x) && !__builtin_sub_overflow(m.sh, sc, &y)) { t.sl = std::max(x, sminw(e->w)); t.sh = std::min(y, smaxw(e->w)); return narrow(S, A, t, exact, depth + 1); } } }
    }
    exact = false; return true;
  case SUB: if (isC(A)) { Iv b = ival(S, B); if (b.uh <= A->c) { if (m.ul > A->c) return false; Iv t = fullIv(e->w); t.uh = A->c - m.ul; t.ul = m.uh > A->c ? 0 : A->c - m.uh; return narrow(S, B, t, exact, depth + 1); } }
    exact = false; return true;
  case MUL: if (isC(B) && B->c) { Iv a = ival(S, A); u128 t;
      if (!__builtin_mul_overflow(a.uh, B->c, &t) && t <= mk_) { Iv r = fullIv(e->w); r.ul = m.ul / B->c + (m.ul % B->c != 0); r.uh = m.uh / B->c; if (r.ul > r.uh) return false; return narrow(S, A, r, exact, depth + 1); } }
    exact = false; return true;
  case UDIV: if (isC(B) && B->c) { Iv r = fullIv(e->w); u128 t; if (__builtin_mul_overflow(m.ul, B->c, &t) || t > mk_) return false; r.ul = t;
      if (!__builtin_mul_overflow(m.uh, B->c, &t) && t <= mk_ && t + (B->c - 1) >= t && t + (B->c - 1) <= mk_) r.uh = t + (B->c - 1);
      return narrow(S, A, r, exact, depth + 1); }
    exact = false; return true;
  case UREM: if (isC(B) && B->c) { Iv a = ival(S, A); u128 q = a.ul / B->c; if (q == a.uh / B->c) { Iv r = fullIv(e->w); r.ul = q * B->c + m.ul; r.uh = q * B->c + m.uh; return narrow(S, A, r, exact, depth + 1); } }
    exact = false; return true;
  case OR: if (e->w > 1) { // both operands are below the bound of the result
      bool ex0 = !(m.uh & (m.uh + 1)) && (m.ul == 0 || m.ul <= std::max(ival(S, A).ul, ival(S, B).ul)) && !lossS; Iv t = fullIv(e->w); t.uh = m.uh; bool dum;
      if (!narrow(S, A, t, dum, depth + 1) || !narrow(S, B, t, dum, depth + 1)) return false;
      if (!ex0) exact = false; return true; }
    break;
  case ZEXT: { Iv r = fullIv(A->w); if (m.ul > maskw(A->w)) return false; r.ul = m.ul; r.uh = std::min(m.uh, maskw(A->w)); return narrow(S, A, r, exact, depth + 1); }
  case SEXT: { Iv r = fullIv(A->w); r.sl = std::max(m.sl, sminw(A->w)); r.sh = std::min(m.sh, smaxw(A->w)); return narrow(S, A, r, exact, depth + 1); }
  case EXTRACT: { Iv a = ival(S, A); if (e->c == 0 && a.uh <= mk_) { Iv r = fullIv(A->w); r.ul = m.ul; r.uh = m.uh; return narrow(S, A, r, exact, depth + 1); }
      if (e->c == 0 && a.sl >= sminw(e->w) && a.sh <= smaxw(e->w)) { Iv r = fullIv(A->w); r.sl = m.sl; r.sh = m.sh; return narrow(S, A, r, exact, depth + 1); } }
    exact = false; return true;
  case ITE: { exact = false; const Iv b = ival(S, B), c = ival(S, e->k[2]); bool e1, e2; ivMeet(b, m, e->w, e1); ivMeet(c, m, e->w, e2);
      if (e1 && e2) return false; bool dummy;
      if (e1) { Iv z{0, 0, 0, 0}; return narrow(S, A, z, dummy, depth + 1) && narrow(S, e->k[2], m, dummy, depth + 1); }
      if (e2) { Iv o{1, 1, -1, -1}; return narrow(S, A, o, dummy, depth + 1) && narrow(S, B, m, dummy, depth + 1); }
      return true; }
  default: break;
  }
  if (e->w == 1 && m.ul == m.uh) {
    bool t = m.ul == 1; bool dum;
    auto below = [&](Expr* X, Expr* Y, bool strict, bool sgn) -> bool { // X < Y or X <= Y
      Iv x = ival(S, X), y = ival(S, Y);
      Iv nx = fullIv(X->w), ny = fullIv(X->w);
      if (!sgn) { if (strict && y.uh == 0) return false; nx.uh = y.uh - (strict ? 1 : 0); if (strict && x.ul == maskw(X->w)) return false; ny.ul = x.ul + (strict ? 1 : 0); }
      else { if (strict && y.sh == sminw(X->w)) return false; nx.sh = y.sh - (strict ? 1 : 0); if (strict && x.sl == smaxw(X->w)) return false; ny.sl = x.sl + (strict ? 1 : 0); }
      if (!isC(X) && !isC(Y)) exact = false;
      if (!isC(X)) if (!narrow(S, X, nx, exact, depth + 1)) return false;
      if (!isC(Y)) if (!narrow(S, Y, ny, exact, depth + 1)) return false;
      return true; };
    switch (e->op) {
    case EQ: { Iv x = ival(S, A), y = ival(S, B);
      if (t) { if (!isC(A) && !isC(B)) exact = false; if (!narrow(S, A, y, exact, depth + 1)) return false; if (isC(B)) return true; return narrow(S, B, x, dum, depth + 1); }
      if (isC(B)) { Iv n = x; if (x.ul == B->c) { n.ul++; n.sl = sminw(A->w); n.sh = smaxw(A->w); return narrow(S, A, n, exact, depth + 1); } if (x.uh == B->c) { n.uh--; n.sl = sminw(A->w); n.sh = smaxw(A->w); return narrow(S, A, n, exact, depth + 1); }
        i128 sb = sxt(B->c, B->w); if (x.sl == sb && x.sl < x.sh) { n = fullIv(A->w); n.sl = sb + 1; return narrow(S, A, n, exact, depth + 1); } if (x.sh == sb && x.sl < x.sh) { n = fullIv(A->w); n.sh = sb - 1; return narrow(S, A, n, exact, depth + 1); } }
      exact = false; return true; }
    case ULT: return t ? below(A, B, true, false) : below(B, A, false, false);
    case ULE: return t ? below(A, B, false, false) : below(B, A, true, false);
    case SLT: return t ? below(A, B, true, true) : below(B, A, false, true);
    case SLE: return t ? below(A, B, false, true) : below(B, A, true, true);
    case XOR: if (isC(B)) { Iv z = t ? Iv{0, 0, 0, 0} : Iv{1, 1, -1, -1}; return narrow(S, A, z, exact, depth + 1); } break;
    case AND: if (t) { Iv o{1, 1, -1, -1}; return narrow(S, A, o, exact, depth + 1) && narrow(S, B, o, exact, depth + 1); } break;
    case OR: if (!t) { Iv o{0, 0, 0, 0}; return narrow(S, A, o, exact, depth + 1) && narrow(S, B, o, exact, depth + 1); } break;
    default: break;
    }
  }
  exact = false; return true;
}
static bool modelHolds(State& S, const std::vector<u128>& m, EvalMemo& memo) {
  for (Expr* v : S.vars) { auto f = S.facts.find(v); u128 x = (size_t)v->c < m.size() ? m[(size_t)v->c] : v->iv.ul; if (x < v->iv.ul || x > v->iv.uh) return false; if (f != S.facts.end() && (x < f->second.ul || x > f->second.uh || sxt(x, v->w) < f->second.sl || sxt(x, v->w) > f->second.sh)) return false; }
  for (Expr* c : S.pc) if (!evalExpr(c, m, memo)) return false;
  return true;
}
static bool addC(State& S, Expr* c) {
  if (isTrue(c)) return true; if (isFalse(c)) return false;
  bool exact = true; Iv o{1, 1, -1, -1};
  if (!narrow(S, c, o, exact)) return false;
  if (!exact) S.pc.push_back(c);
  return true;
}
static std::vector<Expr*> sliceFor(State& S, Expr* q) {
  uint64_t m0 = q->vm[0], m1 = q->vm[1]; std::vector<Expr*> out; std::vector<bool> used(S.pc.size(), false); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < S.pc.size(); i++) if (!used[i] && ((S.pc[i]->vm[0] & m0) || (S.pc[i]->vm[1] & m1))) { used[i] = true; out.push_back(S.pc[i]); m0 |= S.pc[i]->vm[0]; m1 |= S.pc[i]->vm[1]; ch = true; } }
  for (Expr* v : S.vars) if ((v->vm[0] & m0) || (v->vm[1] & m1)) { auto f = S.facts.find(v); if (f == S.facts.end()) continue;
    if (f->second.ul > v->iv.ul) out.push_back(mk(ULE, 1, mkConst(f->second.ul, v->w), v)); if (f->second.uh < v->iv.uh) out.push_back(mk(ULE, 1, v, mkConst(f->second.uh, v->w))); 
    { if (f->second.sl > sminw(v->w)) out.push_back(mk(SLE, 1, mkConst((u128)f->second.sl, v->w), v)); if (f->second.sh < smaxw(v->w)) out.push_back(mk(SLE, 1, v, mkConst((u128)f->second.sh, v->w))); } }
  out.push_back(q); return out;
}
// exact decision when the variables involved have few values altogether
static uint64_t nfd = 0;
static Res finiteDomain(State& S, const std::vector<Expr*>& q, std::vector<u128>& out, uint64_t cap) {
  uint64_t m0 = 0, m1 = 0; for (Expr* e : q) { m0 |= e->vm[0]; m1 |= e->vm[1]; }
  if (__builtin_popcountll(m0) + __builtin_popcountll(m1) > 12) return UNKNOWN;
  std::vector<Expr*> vs, fixed; uint64_t prod = 1;
  for (Expr* v : S.vars) if ((v->vm[0] & m0) || (v->vm[1] & m1)) { if (v->iv.ul == v->iv.uh) continue; const Iv& d = ival(S, v); if (d.uh == d.ul) { fixed.push_back(v); continue; } if (d.uh - d.ul >= 256 || vs.size() >= 3) return UNKNOWN; vs.push_back(v); prod *= (uint64_t)(d.uh - d.ul) + 1; if (prod > cap) return UNKNOWN; }
  std::vector<u128> m = S.model; m.resize(std::max(m.size(), g_vars.size()));
  for (size_t i = S.model.size(); i < m.size(); i++) m[i] = g_vars[i].lo;
  for (Expr* v : fixed) m[(size_t)v->c] = ival(S, v).ul;
  nfd++;
  for (uint64_t k = 0; k < prod; k++) {
    uint64_t t = k; for (Expr* v : vs) { const Iv& d = ival(S, v); uint64_t n = (uint64_t)(d.uh - d.ul) + 1; m[(size_t)v->c] = d.ul + t % n; t /= n; }
    EvalMemo memo; bool ok = true; for (Expr* e : q) if (!evalExpr(e, m, memo)) { ok = false; break; }
    if (ok) { out = m; return SAT; }
  }
  return UNSAT;
}
static Res feasible(State& S, Expr* c, std::vector<u128>* outModel, bool fd = true) {
  const Iv& v = ival(S, c);
  if (v.ul == v.uh) { if (!v.ul) return UNSAT; if (S.hasModel) { if (outModel) *outModel = S.model; return SAT; } }
  if (S.hasModel) {
    EvalMemo memo; if (evalExpr(c, S.model, memo)) { if (outModel) *outModel = S.model; return SAT; }
    // try the interval end points of the involved variables
    std::vector<Expr*> inv; for (Expr* x : S.vars) if ((x->vm[0] & c->vm[0]) || (x->vm[1] & c->vm[1])) inv.push_back(x);
    if (inv.size() <= 4) for (Expr* x : inv) { const Iv& r = ival(S, x); u128 cand[3] = {r.ul, r.uh, 0}; int nc = 2;
      for (int i = 0; i < nc; i++) { std::vector<u128> m = S.model; if (m.size() <= (size_t)x->c) m.resize((size_t)x->c + 1); m[(size_t)x->c] = cand[i]; EvalMemo mm; if (evalExpr(c, m, mm) && modelHolds(S, m, mm)) { if (outModel) *outModel = m; return SAT; } } }
  }
  std::vector<u128> m; std::vector<Expr*> q = sliceFor(S, c);
  Res r = finiteDomain(S, q, m, fd ? 1024 : 1); // without fd: only constant propagation of fixed inputs
  if (r == UNKNOWN) r = smtCheck(q, m);
  if (r == SAT && outModel) {
    // combine with the previous model for unrelated variables
    uint64_t m0 = 0, m1 = 0; for (Expr* e : q) { m0 |= e->vm[0]; m1 |= e->vm[1]; }
    std::vector<u128> full = S.model; full.resize(g_vars.size());
    for (size_t i = 0; i < g_vars.size(); i++) { Expr* v = g_vars[i].e; if (((v->vm[0] & m0) || (v->vm[1] & m1)) && i < m.size()) full[i] = m[i]; else if (i >= S.model.size()) full[i] = g_vars[i].lo; }
    *outModel = full;
  }
  return r;
}

// ---------------------------------------------------------------- memory access
static Obj* findObj(State& S, uint64_t a) {
  auto it = std::upper_bound(S.objs.begin(), S.objs.end(), a, [](uint64_t x, const std::pair<uint64_t, ObjP>& o) { return x < o.first; });
  while (it != S.objs.begin()) { --it; if (!it->second.p) continue; Obj* o = it->second.p; if (a >= o->base && a <= o->base + o->size) return o; return nullptr; }
  return nullptr;
}
static size_t findIdx(State& S, uint64_t a) {
  auto it = std::upper_bound(S.objs.begin(), S.objs.end(), a, [](uint64_t x, const std::pair<uint64_t, ObjP>& o) { return x < o.first; });
  while (it != S.objs.begin()) { --it; if (!it->second.p) continue; return it - S.objs.begin(); }
  return (size_t)-1;
}
static uint64_t allocObj(State& S, uint64_t size, uint8_t kind, const char* name, uint64_t align = 16) {
  if (size > (1ull << 31)) endPath("inconclusive", "allocation of " + std::to_string(size) + " bytes");
  if (align < 16) align = 16;
  uint64_t base = (S.brk + align - 1) / align * align; S.brk = base + size + 48;
  Obj* o = new Obj(); o->base = base; o->size = size; o->kind = kind; o->b.assign(size, 0); o->name = name;
  S.objs.push_back({base, ObjP(o)});
  return base;
}
static void removeObj(State& S, uint64_t base) {
  size_t i = findIdx(S, base); if (i == (size_t)-1) return;
  S.objs[i].second = ObjP(); S.dead++;
  while (!S.objs.empty() && !S.objs.back().second.p) { S.objs.pop_back(); S.dead--; }
  if (S.dead > 64 && S.dead > S.objs.size() / 2) { S.objs.erase(std::remove_if(S.objs.begin(), S.objs.end(), [](const std::pair<uint64_t, ObjP>& o) { return !o.second.p; }), S.objs.end()); S.dead = 0; }
}
static std::string hexs(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
struct RaceLog { bool on = false; int iter = -1; struct R { uint64_t lo, hi; int iter; bool w; std::string where; }; std::vector<R> log; };
static Obj* access(State& S, uint64_t a, uint64_t n, bool write) {
  size_t i = findIdx(S, a);
  if (i == (size_t)-1) endPath("memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at unmapped " + hexs(a));
  Obj* o = S.objs[i].second.p;
  if (a < o->base || a + n > o->base + o->size) endPath("memory", std::string(write ? "out-of-bounds write" : "out-of-bounds read") + " of " + std::to_string(n) + " bytes, offset " + std::to_string((long long)(a - o->base)) + " in object of " + std::to_string(o->size) + " bytes " + o->name);
  if (write) {
    if (o->ro) endPath("memory", "write to constant");
    if (o->rc > 1) { Obj* c = new Obj(*o); c->rc = 0; S.objs[i].second = ObjP(c); o = c; }
  }
  return o;
}
static Val loadC(State& S, uint64_t a, int w) {
  int n = (w + 7) / 8; Obj* o = access(S, a, n, false); uint64_t off = a - o->base;
  if (o->sym.empty()) { u128 v = 0; memcpy(&v, &o->b[off], n); v &= maskw(w); return cv128(v); }
  auto it = o->sym.lower_bound(off);
  if (it == o->sym.end() || it->first >= off + n) { u128 v = 0; memcpy(&v, &o->b[off], n); v &= maskw(w); return cv128(v); }
  // exact match
  if (it->first == off && it->second.second == 0) {
    Expr* e = it->second.first; int en = (e->w + 7) / 8;
    if (e->fp) { if (en == n) return Val{0, 0, e}; endPath("inconclusive", "partial read of symbolic double"); }
    if (en >= n) { bool ok = true; for (int i = 1; i < n && ok; i++) { auto j = o->sym.find(off + i); ok = j != o->sym.end() && j->second.first == e && j->second.second == i; }
      if (ok) { if (e->w >= w) return fromE(mkExtract(e, 0, w)); return fromE(mk(ZEXT, w, e)); } }
  }
  Expr* r = nullptr; int rw = 0;
  for (int i = 0; i < n;) {
    auto j = o->sym.find(off + i); Expr* be; int take = 1;
    if (j == o->sym.end()) be = mkConst(o->b[off + i], 8);
    else { Expr* e = j->second.first; if (e->fp) endPath("inconclusive", "mixed read of symbolic double");
      // take a run
      int bo = j->second.second; while (i + take < n) { auto q = o->sym.find(off + i + take); if (q == o->sym.end() || q->second.first != e || q->second.second != bo + take) break; take++; }
      int bits = std::min(take * 8, (int)e->w - bo * 8); be = mkExtract(e, bo * 8, bits); if (bits < take * 8) be = mk(ZEXT, take * 8, be); }
    if (!r) { r = be; rw = take * 8; } else { r = mk(ADD, rw + take * 8, mk(MUL, rw + take * 8, mk(ZEXT, rw + take * 8, be), mkConst((u128)1 << rw, rw + take * 8)), mk(ZEXT, rw + take * 8, r)); rw += take * 8; }
    i += take;
  }
  return fromE(mkExtract(r, 0, w));
}
static void storeC(State& S, uint64_t a, int w, const Val& v) {
  int n = (w + 7) / 8; Obj* o = access(S, a, n, true); uint64_t off = a - o->base;
  if (!v.e) {
    u128 x = v128(v); memcpy(&o->b[off], &x, n);
    if (!o->sym.empty()) for (auto it = o->sym.lower_bound(off); it != o->sym.end() && it->first < off + n;) it = o->sym.erase(it);
  } else { Expr* e = v.e; if (!e->fp && e->w < n * 8) e = mk(ZEXT, n * 8, e); for (int i = 0; i < n; i++) o->sym[off + i] = {e, (uint8_t)i}; }
}
static void copyMem(State& S, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Obj* so = access(S, s, n, false); ObjP keep(so);
  Obj* dobj = access(S, d, n, true); uint64_t so_ = s - so->base, do_ = d - dobj->base;
  std::vector<uint8_t> tmp(so->b.begin() + so_, so->b.begin() + so_ + n);
  std::vector<std::pair<uint32_t, std::pair<Expr*, uint8_t>>> ts; for (auto it = so->sym.lower_bound(so_); it != so->sym.end() && it->first < so_ + n; ++it) ts.push_back({(uint32_t)(it->first - so_ + do_), it->second});
  memcpy(&dobj->b[do_], tmp.data(), n);
  for (auto it = dobj->sym.lower_bound(do_); it != dobj->sym.end() && it->first < do_ + n;) it = dobj->sym.erase(it);
  for (auto& x : ts) dobj->sym[x.first] = x.second;
}

// ---------------------------------------------------------------- forking
static std::vector<State*> work;
static void pushState(State* s) { work.push_back(s); }
static void noteFork(State& S, uint64_t n);
// enumerate feasible values of e; fork one state per value
static void concretize(State& S, Val& v, int w, const char* why) {
  if (!v.e) return;
  if (v.e->fp) endPath("inconclusive", std::string("concretize fp: ") + why);
  const Iv iv = ival(S, v.e);
  if (iv.ul == iv.uh) { v = cv128(iv.ul); return; }
  std::vector<u128> vals; std::vector<std::vector<u128>> models;
  u128 cnt = iv.uh - iv.ul; unsigned stride = 1u << std::min<int>(v.e->tz, 12);
  bool viaSolver = cnt / stride >= optForkCap;
  if (!viaSolver) {
    for (u128 x = (iv.ul + stride - 1) / stride * stride; x <= iv.uh; x += stride) {
      Expr* c = mk(EQ, 1, v.e, mkConst(x, w)); State T = S; if (!addC(T, c)) { if (x == maskw(w)) break; continue; }
      std::vector<u128> m; Res r = feasible(S, c, &m);
      if (r == UNKNOWN) endPath("inconclusive", std::string("unknown in concretize ") + why);
      if (r == SAT) { vals.push_back(x); models.push_back(m); }
      if (x + stride < x) break;
    }
  } else {
    State T = S;
    while (true) {
      Expr* t = mkConst(1, 1); for (u128 x : vals) t = mk(AND, 1, t, mkNot(mk(EQ, 1, v.e, mkConst(x, w))));
      std::vector<u128> m; Res r = isTrue(t) && S.hasModel ? (m = S.model, SAT) : feasible(S, t, &m);
      if (r == UNKNOWN) endPath("inconclusive", std::string("unknown in concretize ") + why);
      if (r == UNSAT) break;
      EvalMemo memo; u128 x = evalExpr(v.e, m, memo); vals.push_back(x); models.push_back(m);
      if (vals.size() > optForkCap) endPath("inconclusive", std::string("too many values in concretize ") + why + " " + dump(v.e, 5) + " range " + u128s(iv.ul) + ".." + u128s(iv.uh));
    }
  }
  stats.forks += vals.empty() ? 0 : vals.size() - 1; noteFork(S, vals.size() - 1);
  for (size_t i = vals.size(); i-- > 0;) {
    State* n = new State(S); Expr* c = mk(EQ, 1, v.e, mkConst(vals[i], w));
    if (!addC(*n, c)) { delete n; continue; }
    Iv one{vals[i], vals[i], sxt(vals[i], w), sxt(vals[i], w)}; n->facts[v.e] = one; n->memo.clear();
    n->model = models[i]; n->hasModel = true; pushState(n);
  }
  throw Resched{};
}
// decide a condition; may fork. returns taken value for the current state
static int decide(State& S, Val& c, std::function<void(State&, int)> other) {
  if (!c.e) return c.lo & 1;
  Expr* e = c.e; const Iv& v = ival(S, e);
  if (v.ul == v.uh) return (int)v.ul;
  std::vector<u128> mt, mf; Res rt = feasible(S, e, &mt); Expr* ne = mkNot(e); Res rf = feasible(S, ne, &mf);
  if (rt == UNKNOWN || rf == UNKNOWN) {
    endPath("inconclusive", "solver gave no answer on a branch: " + dump(e, 6)); }
  if (rt == UNSAT && rf == UNSAT) endPath("infeasible", "");
  if (rt == SAT && rf == SAT) {
    stats.forks++; noteFork(S, 1);
    State* n = new State(S);
    if (addC(*n, ne)) { n->model = mf; n->nforks++; other(*n, 0); pushState(n); } else delete n;
    if (!addC(S, e)) endPath("infeasible", "");
    S.model = mt; S.nforks++; return 1;
  }
  if (rt == SAT) { S.model = mt; if (!addC(S, e)) endPath("infeasible", ""); return 1; }
  S.model = mf; if (!addC(S, ne)) endPath("infeasible", ""); return 0;
}

#include "load.inc"
#include "run.inc"
