// Differential self-test of the expression simplifier, the intervals and both SMT encodings.
#include "expr.h"
#include "smt.h"
#include <random>
#include <cstdio>
#include <cstdlib>
static std::mt19937_64 rng;
struct T { Expr* e; int w; };
static u128 rnd(int w) { int k = rng() % 8; u128 v = ((u128)rng() << 64) | rng(); if (k == 0) v = rng() % 4; if (k == 1) v = maskw(w) - rng() % 4; if (k == 2) v = (u128)1 << (rng() % w); if (k == 3) v = ((u128)1 << (rng() % w)) - 1; if (k == 4) v &= 0xffff; return v & maskw(w); }
int main(int argc, char** argv) {
  rng.seed(argc > 1 ? atoi(argv[1]) : 1); int N = argc > 2 ? atoi(argv[2]) : 20000; int nsmt = 0, bad = 0; g_poly = argc > 3;
  g_cfg.lia_ms = 500; g_cfg.nia_ms = 500; g_cfg.bv_ms = 3000;
  int ws[] = {1, 8, 16, 32, 64, 128};
  // a few variables with ranges, fixed
  std::vector<Expr*> vars; for (int w : {8, 32, 64, 64, 128, 128, 64}) { u128 a = rnd(w), b = rnd(w); if (a > b) std::swap(a, b); if (rng() % 2) { a = 0; b = maskw(w); } vars.push_back(mkVar("v" + std::to_string(vars.size()), w, a, b)); }
  for (int it = 0; it < N; it++) {
    std::vector<u128> m; for (auto& v : g_vars) { u128 x = rnd(v.w); if (x < v.lo || x > v.hi) { u128 d = v.hi - v.lo; x = v.lo + (d == maskw(128) ? x : x % (d + 1)); } m.push_back(x); }
    std::vector<Expr*> pool = vars; std::vector<u128> val = m;
    for (int w : ws) { u128 c = rnd(w); pool.push_back(mkConst(c, w)); val.push_back(c); }
    int len = 2 + rng() % 12;
    for (int i = 0; i < len; i++) {
      Op ops[] = {ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR, ZEXT, SEXT, EXTRACT, EQ, ULT, ULE, SLT, SLE, ITE, CTPOP, CTLZ, CTTZ, CONST};
      Op op = ops[rng() % 26]; int ai = rng() % pool.size(); if (rng() % 2) ai = pool.size() - 1 - rng() % std::min<size_t>(4, pool.size());
      Expr* a = pool[ai]; Expr* r = nullptr; u128 v = 0;
      auto same = [&](int w) { for (int t = 0; t < 50; t++) { int j = rng() % pool.size(); if (pool[j]->w == w) return j; } return -1; };
      switch (op) {
      case CONST: { u128 c = rnd(a->w); r = mkConst(c, a->w); v = c; break; }
      case ZEXT: case SEXT: { int w = ws[rng() % 6]; if (w <= a->w) continue; r = mk(op, w, a); v = evalOp(op, w, val[ai], a->w, 0, 0, 0, 0); break; }
      case EXTRACT: { int w = ws[rng() % 6]; if (w >= a->w) continue; int off = rng() % (a->w - w + 1); if (rng() % 2) off = 0; r = mkExtract(a, off, w); v = (val[ai] >> off) & maskw(w); break; }
      case CTPOP: case CTLZ: case CTTZ: if (a->w < 8) continue; r = mk(op, a->w, a); v = evalOp(op, a->w, val[ai], a->w, 0, 0, 0, 0); break;
      case ITE: { int ci = same(1); if (ci < 0) continue; int bi = same(a->w); if (bi < 0) continue; r = mk(ITE, a->w, pool[ci], a, pool[bi]); v = val[ci] ? val[ai] : val[bi]; break; }
      default: { int bi = same(a->w); if (bi < 0) continue; bool cmp = op >= EQ && op <= SLE; if (a->w == 1 && !(op == AND || op == OR || op == XOR || op == EQ)) continue; if ((op == UDIV || op == UREM || op == SDIV || op == SREM) && val[bi] == 0) continue; if ((op==SHL||op==LSHR||op==ASHR) && val[bi] >= (u128)a->w) continue;
        r = mk(op, cmp ? 1 : a->w, a, pool[bi]); v = evalOp(op, cmp ? 1 : a->w, val[ai], a->w, val[bi], a->w, 0, 0); break; }
      }
      EvalMemo memo; u128 got = evalExpr(r, m, memo);
      if (got != v) { printf("SIMPLIFIER op %d got %s want %s: %s\n", op, u128s(got).c_str(), u128s(v).c_str(), dump(r, 5).c_str()); bad++; break; }
      if (v < r->iv.ul || v > r->iv.uh || sxt(v, r->w) < r->iv.sl || sxt(v, r->w) > r->iv.sh) { printf("INTERVAL op %d val %s: %s\n", op, u128s(v).c_str(), dump(r, 4).c_str()); bad++; break; }
      if (r->tz && v && (v & (((u128)1 << std::min<int>(r->tz, 127)) - 1))) { printf("TZ %s\n", dump(r, 4).c_str()); bad++; break; }
      pool.push_back(r); val.push_back(v);
    }
    // SMT: constrain to the actual values -> must be satisfiable (never UNSAT), and the negation for fixed variables unsat
    if (it % 10 == 0) {
      Expr* r = pool.back(); u128 v = val.back(); if (isC(r)) continue; std::vector<Expr*> cs; std::vector<u128> mm;
      for (size_t i = 0; i < vars.size(); i++) if (rng() % 3) cs.push_back(mk(EQ, 1, vars[i], mkConst(m[i], vars[i]->w)));
      cs.push_back(mk(EQ, 1, r, mkConst(v, r->w))); nsmt++;
      for (int mode = 0; mode < 2; mode++) { g_cfg.no_bv = mode == 0; g_cfg.no_lia = mode == 1; Res q = smtCheck(cs, mm); if (q == UNSAT) { printf("SMT UNSAT mode %d: %s = %s\n", mode, dump(r, 12).c_str(), u128s(v).c_str()); for (auto c : cs) printf("   %s\n", dump(c, 3).c_str()); bad++; } }
    }
    if (bad > 5) return 1;
  }
  printf("selftest: %d expressions, %d smt, sat %llu unsat %llu unknown %llu, bad %d\n", N, nsmt, (unsigned long long)g_smt.sat, (unsigned long long)g_smt.unsat, (unsigned long long)g_smt.unknown, bad);
  fflush(stdout); _Exit(bad ? 1 : 0);
}
