#include "smt.h"
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>

SmtStats g_smt; SmtCfg g_cfg;
static z3::context& C() { static z3::context* c = new z3::context(); return *c; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static mpz_class Z(u128 v) { mpz_class h((unsigned long)(uint64_t)(v >> 64)), l((unsigned long)(uint64_t)v); return (h << 64) + l; }
static mpz_class Zs(i128 v) { return v < 0 ? mpz_class(-Z((u128)(-(v + 1))) - 1) : Z((u128)v); }
static mpz_class p2(int k) { mpz_class r = 1; return r << k; }
static u128 U(const mpz_class& z) { mpz_class l = z & mpz_class("18446744073709551615"); mpz_class h = (z >> 64) & mpz_class("18446744073709551615"); return ((u128)h.get_ui() << 64) | l.get_ui(); }
static mpz_class fdiv(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }

// ---------- polynomial integer encoding ----------
typedef std::vector<int> Mono;
typedef std::map<Mono, mpz_class> Poly;
struct Atom { mpz_class lo, hi; std::vector<int> deps; z3::expr ze; std::vector<z3::expr> defs; std::vector<Mono> defmonos; Atom(z3::expr e) : ze(e) {} };
struct TV { Poly p; mpz_class lo, hi; }; // representative modulo 2^w
static std::vector<Atom> atoms;
static std::unordered_map<Expr*, TV> tcache, ucache, scache;
static std::unordered_map<Expr*, int> boolDepsStart;
static std::map<Mono, z3::expr>* linMono = nullptr;

static void padd(Poly& a, const Poly& b, const mpz_class& k) {
  for (auto& m : b) { auto& r = a[m.first]; r += m.second * k; if (r == 0) a.erase(m.first); }
}
static Poly pconst(const mpz_class& c) { Poly p; if (c != 0) p[{}] = c; return p; }
static Poly patom(int i) { Poly p; p[{i}] = 1; return p; }
static Poly pmul(const Poly& a, const Poly& b) {
  Poly r;
  for (auto& x : a) for (auto& y : b) { Mono m = x.first; m.insert(m.end(), y.first.begin(), y.first.end()); std::sort(m.begin(), m.end()); auto& t = r[m]; t += x.second * y.second; if (t == 0) r.erase(m); }
  return r;
}
static bool isPC(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
static mpz_class pc(const Poly& p) { return p.empty() ? mpz_class(0) : p.begin()->second; }

static z3::expr zc(const mpz_class& v) { return C().int_val(v.get_str().c_str()); }
// bounds of a polynomial from atom bounds
static void pbounds(const Poly& p, mpz_class& lo, mpz_class& hi) {
  lo = hi = 0;
  for (auto& m : p) {
    mpz_class l = 1, h = 1;
    for (int a : m.first) {
      mpz_class c[4] = {l * atoms[a].lo, l * atoms[a].hi, h * atoms[a].lo, h * atoms[a].hi};
      l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
    }
    if (m.second >= 0) { lo += m.second * l; hi += m.second * h; } else { lo += m.second * h; hi += m.second * l; }
  }
}
static z3::expr pz(const Poly& p, std::set<int>* deps) {
  // deps collect atoms
  z3::expr_vector v(C());
  for (auto& m : p) {
    if (m.first.empty()) { v.push_back(zc(m.second)); continue; }
    if (deps) for (int a : m.first) deps->insert(a);
    z3::expr t = atoms[m.first[0]].ze;
    for (size_t i = 1; i < m.first.size(); i++) t = t * atoms[m.first[i]].ze;
    if (m.second != 1) t = zc(m.second) * t;
    v.push_back(t);
  }
  if (v.size() == 0) return C().int_val(0);
  if (v.size() == 1) return v[0];
  return z3::sum(v);
}
static int newAtom(const char* n, const mpz_class& lo, const mpz_class& hi) {
  int id = atoms.size();
  Atom a(C().int_const((std::string(n) + std::to_string(id)).c_str()));
  a.lo = lo; a.hi = hi;
  a.defs.push_back(a.ze >= zc(lo) && a.ze <= zc(hi));
  atoms.push_back(a);
  return id;
}
static void addDef(int id, z3::expr d, const std::set<int>& deps) {
  atoms[id].defs.push_back(d);
  for (int x : deps) if (x != id) atoms[id].deps.push_back(x);
}
static z3::expr tbool(Expr* e, std::set<int>& deps);
static const TV& trans(Expr* e);
static const TV& canonU(Expr* e);
static const TV& canonS(Expr* e);

static TV canon(const TV& t, int w, const mpz_class& base, const mpz_class& tlo, const mpz_class& thi) {
  // representative in [base, base + 2^w)
  mpz_class M = p2(w);
  mpz_class k0 = fdiv(t.lo - base, M), k1 = fdiv(t.hi - base, M);
  TV r = t;
  if (k0 == k1) { if (k0 != 0) padd(r.p, pconst(k0 * M), -1); r.lo -= k0 * M; r.hi -= k0 * M; }
  else {
    std::set<int> deps;
    int k = newAtom("k", k0, k1);
    padd(r.p, patom(k), -M);
    z3::expr ze = pz(r.p, &deps);
    addDef(k, ze >= zc(base) && ze <= zc(base + M - 1), deps);
    r.lo = base; r.hi = base + M - 1;
  }
  if (tlo > r.lo) r.lo = tlo; if (thi < r.hi) r.hi = thi;
  return r;
}
static const TV& canonU(Expr* e) {
  auto it = ucache.find(e); if (it != ucache.end()) return it->second;
  TV t = trans(e);
  TV r = canon(t, e->w, 0, Z(e->iv.ul), Z(e->iv.uh));
  return ucache[e] = r;
}
static const TV& canonS(Expr* e) {
  auto it = scache.find(e); if (it != scache.end()) return it->second;
  TV r;
  if (e->iv.sl >= 0) r = canonU(e);
  else { TV t = trans(e); r = canon(t, e->w, -p2(e->w - 1), Zs(e->iv.sl), Zs(e->iv.sh)); }
  return scache[e] = r;
}
static TV atomTV(int id) { TV t; t.p = patom(id); t.lo = atoms[id].lo; t.hi = atoms[id].hi; return t; }
static void tighten(TV& t) { mpz_class l, h; pbounds(t.p, l, h); if (l > t.lo) t.lo = l; if (h < t.hi) t.hi = h; }

// quotient of u / d (both canonical non negative), d constant > 0
static TV quot(const TV& n, const mpz_class& d) {
  static std::map<std::pair<Poly, mpz_class>, int> qc;
  TV q;
  if (fdiv(n.lo, d) == fdiv(n.hi, d)) { q.p = pconst(fdiv(n.lo, d)); q.lo = q.hi = fdiv(n.lo, d); return q; }
  // exact polynomial division when every coefficient but the constant is divisible
  auto key = std::make_pair(n.p, d);
  auto it = qc.find(key);
  int a;
  if (it != qc.end()) a = it->second;
  else {
    a = newAtom("q", fdiv(n.lo, d), fdiv(n.hi, d));
    std::set<int> deps; z3::expr zn = pz(n.p, &deps);
    Poly rem = n.p; padd(rem, patom(a), -d);
    z3::expr r = pz(rem, &deps);
    addDef(a, r >= 0 && r <= zc(d - 1), deps);
    qc[key] = a;
  }
  return atomTV(a);
}
static TV transU(Expr* e) {
  int w = e->w; Expr* A = e->k[0]; Expr* B = e->k[1];
  TV r;
  switch (e->op) {
  case CONST: { mpz_class v = Z(e->c); if (v >= p2(w - 1) && w > 1) v -= p2(w); r.p = pconst(v); r.lo = r.hi = v; return r; }
  case VAR: { int id = newAtom("v", Z(e->iv.ul), Z(e->iv.uh)); return atomTV(id); }
  case ADD: case SUB: { const TV a = trans(A); const TV& b = trans(B); r = a; bool s = e->op == SUB; padd(r.p, b.p, s ? -1 : 1); if (s) { r.lo = a.lo - b.hi; r.hi = a.hi - b.lo; } else { r.lo = a.lo + b.lo; r.hi = a.hi + b.hi; } break; }
  case MUL: { TV a = trans(A), b = trans(B);
    // keep representatives small
    if (mpz_sizeinbase(a.hi.get_mpz_t(), 2) > (size_t)w + 2 || mpz_sizeinbase(a.lo.get_mpz_t(), 2) > (size_t)w + 2) a = canonU(A);
    if (mpz_sizeinbase(b.hi.get_mpz_t(), 2) > (size_t)w + 2 || mpz_sizeinbase(b.lo.get_mpz_t(), 2) > (size_t)w + 2) b = canonU(B);
    r.p = pmul(a.p, b.p);
    mpz_class c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    r.lo = *std::min_element(c, c + 4); r.hi = *std::max_element(c, c + 4); break; }
  case ZEXT: if (A->w == 1) { goto booltoint; } return canonU(A);
  case SEXT: if (A->w == 1) { goto booltoint; } return canonS(A);
  case EXTRACT: return trans(A);
  case UDIV: case UREM: {
    TV n = canonU(A), d = canonU(B);
    if (isPC(d.p) && pc(d.p) > 0) {
      TV q = quot(n, pc(d.p));
      if (e->op == UDIV) return q;
      r = n; padd(r.p, q.p, -pc(d.p)); r.lo = 0; r.hi = pc(d.p) - 1; if (n.hi < r.hi) r.hi = n.hi; break;
    }
    if (d.lo <= 0) { int id = newAtom("x", 0, p2(w) - 1); return atomTV(id); } // unconstrained
    int q = newAtom("q", fdiv(n.lo, d.hi), fdiv(n.hi, d.lo));
    Poly rem = n.p; padd(rem, pmul(patom(q), d.p), -1);
    std::set<int> deps; z3::expr zr = pz(rem, &deps); z3::expr zd = pz(d.p, &deps);
    addDef(q, zr >= 0 && zr < zd, deps);
    if (e->op == UDIV) return atomTV(q);
    r.p = rem; r.lo = 0; r.hi = d.hi - 1; break; }
  case SDIV: case SREM: {
    TV n = canonS(A), d = canonS(B);
    if (isPC(d.p) && pc(d.p) > 0) {
      mpz_class dc = pc(d.p);
      mpz_class bound = (abs(n.lo) > abs(n.hi) ? abs(n.lo) : abs(n.hi)) / dc;
      int q = newAtom("s", -bound, bound);
      Poly rem = n.p; padd(rem, patom(q), -dc);
      std::set<int> deps; z3::expr zr = pz(rem, &deps), zn = pz(n.p, &deps);
      addDef(q, z3::ite(zn >= 0, zr >= 0 && zr <= zc(dc - 1), zr <= 0 && zr >= zc(1 - dc)), deps);
      if (e->op == SDIV) return atomTV(q);
      r.p = rem; r.lo = 1 - dc; r.hi = dc - 1; break;
    }
    int id = newAtom("x", -p2(w - 1), p2(w - 1)); return atomTV(id); }
  case AND: if (isC(B)) { // sum of contiguous runs
      TV n = canonU(A); u128 m = B->c; r.lo = r.hi = 0; int i = 0;
      while (i < 128 && (m >> i)) { if (!((m >> i) & 1)) { i++; continue; } int j = i; while (j < 128 && ((m >> j) & 1)) j++;
        TV q = quot(n, p2(i)); TV q2 = quot(q, p2(j - i)); Poly t = q.p; padd(t, q2.p, -p2(j - i)); padd(r.p, t, p2(i)); r.hi += (p2(j - i) - 1) * p2(i); i = j; }
      break; }
    { int id = newAtom("x", 0, Z(std::min(A->iv.uh, B->iv.uh))); return atomTV(id); }
  case ITE: {
    std::set<int> deps; TV b = trans(B), c = trans(e->k[2]); z3::expr cond = tbool(A, deps);
    Poly diff = b.p; padd(diff, c.p, -1);
    if (diff.empty()) return b;
    if (isPC(diff)) { // c + diff*bit
      int t = newAtom("i", 0, 1); addDef(t, atoms[t].ze == z3::ite(cond, C().int_val(1), C().int_val(0)), deps);
      r.p = c.p; padd(r.p, patom(t), pc(diff)); r.lo = std::min(b.lo, c.lo); r.hi = std::max(b.hi, c.hi); break; }
    int t = newAtom("i", std::min(b.lo, c.lo), std::max(b.hi, c.hi));
    z3::expr zb = pz(b.p, &deps), zcx = pz(c.p, &deps);
    addDef(t, z3::implies(cond, atoms[t].ze == zb) && z3::implies(!cond, atoms[t].ze == zcx), deps);
    return atomTV(t); }
  default: { int id = newAtom("x", Z(e->iv.ul), Z(e->iv.uh)); return atomTV(id); }
  }
  tighten(r);
  if (r.p.size() > 3000) { // too large: name it
    int t = newAtom("n", r.lo, r.hi); std::set<int> deps; z3::expr z = pz(r.p, &deps); addDef(t, atoms[t].ze == z, deps); return atomTV(t); }
  return r;
booltoint: {
    std::set<int> deps; z3::expr cond = tbool(A, deps); int t = newAtom("b", 0, 1);
    addDef(t, atoms[t].ze == z3::ite(cond, C().int_val(1), C().int_val(0)), deps);
    TV v = atomTV(t); if (e->op == SEXT) { TV m; padd(m.p, v.p, -1); m.lo = -1; m.hi = 0; return m; } return v; }
}
static const TV& trans(Expr* e) {
  auto it = tcache.find(e); if (it != tcache.end()) return it->second;
  // iterative post-order to avoid deep recursion
  std::vector<std::pair<Expr*, int>> st; st.push_back({e, 0});
  while (!st.empty()) {
    Expr* x = st.back().first; int i = st.back().second;
    if (x->w == 1 && x != e) { st.pop_back(); continue; }
    if (tcache.count(x)) { st.pop_back(); continue; }
    if (i < 3 && x->k[i]) { st.back().second++; if (!tcache.count(x->k[i])) st.push_back({x->k[i], 0}); continue; }
    TV t = transU(x); tcache[x] = t; st.pop_back();
  }
  return tcache[e];
}
static std::unordered_map<Expr*, std::pair<z3::expr, std::set<int>>>& bcache() { static auto* m = new std::unordered_map<Expr*, std::pair<z3::expr, std::set<int>>>(); return *m; }
static z3::expr tboolU(Expr* e, std::set<int>& deps) {
  Expr* A = e->k[0]; Expr* B = e->k[1];
  switch (e->op) {
  case CONST: return C().bool_val(e->c != 0);
  case VAR: { const TV& t = canonU(e); return pz(t.p, &deps) == 1; }
  case AND: return tbool(A, deps) && tbool(B, deps);
  case OR: return tbool(A, deps) || tbool(B, deps);
  case XOR: if (isC(B)) return !tbool(A, deps); return tbool(A, deps) != tbool(B, deps);
  case ITE: return z3::ite(tbool(A, deps), tbool(B, deps), tbool(e->k[2], deps));
  case EQ: {
    if (A->w == 1) return tbool(A, deps) == tbool(B, deps);
    TV a = trans(A), b = trans(B); TV d = a; padd(d.p, b.p, -1); d.lo = a.lo - b.hi; d.hi = a.hi - b.lo; tighten(d);
    mpz_class M = p2(A->w);
    if (isPC(d.p)) { mpz_class v = pc(d.p); mpz_class r; mpz_fdiv_r(r.get_mpz_t(), v.get_mpz_t(), M.get_mpz_t()); return C().bool_val(r == 0); }
    if (d.lo > -M && d.hi < M) return pz(d.p, &deps) == 0;
    // all coefficients multiples of M -> true
    TV c = canon(d, A->w, 0, 0, M - 1); return pz(c.p, &deps) == 0; }
  case ULT: case ULE: case SLT: case SLE: {
    bool s = e->op == SLT || e->op == SLE; TV a = s ? canonS(A) : canonU(A); const TV& b = s ? canonS(B) : canonU(B);
    Poly d = a.p; padd(d, b.p, -1); bool strict = e->op == ULT || e->op == SLT;
    if (isPC(d)) return C().bool_val(strict ? pc(d) < 0 : pc(d) <= 0);
    z3::expr z = pz(d, &deps); return strict ? z < 0 : z <= 0; }
  case EXTRACT: { TV c = canon(trans(A), 1, 0, 0, 1); return pz(c.p, &deps) == 1; }
  case UDIV: case UREM: case ADD: case SUB: case MUL: { const TV& t = canonU(e); return pz(t.p, &deps) == 1; }
  default: { int id = newAtom("xb", 0, 1); deps.insert(id); return atoms[id].ze == 1; }
  }
}
static z3::expr tbool(Expr* e, std::set<int>& deps) {
  auto it = bcache().find(e);
  if (it == bcache().end()) { std::set<int> d; z3::expr z = tboolU(e, d); it = bcache().emplace(e, std::make_pair(z, d)).first; }
  deps.insert(it->second.second.begin(), it->second.second.end());
  return it->second.first;
}

// ---------- bit-vector encoding ----------
static std::unordered_map<Expr*, z3::expr>& bvc() { static auto* m = new std::unordered_map<Expr*, z3::expr>(); return *m; }
static z3::expr bvconst(u128 v, int w) { return C().bv_val(u128s(v).c_str(), w); }
static z3::expr bvB(Expr* e); // boolean for width 1
static z3::expr bv(Expr* e) {
  auto it = bvc().find(e); if (it != bvc().end()) return it->second;
  std::vector<std::pair<Expr*, int>> st; st.push_back({e, 0});
  auto G = [&](Expr* x) { return bvc().find(x)->second; };
  while (!st.empty()) {
    Expr* x = st.back().first; int i = st.back().second;
    if (bvc().count(x)) { st.pop_back(); continue; }
    if (i < 3 && x->k[i]) { st.back().second++; if (!bvc().count(x->k[i])) st.push_back({x->k[i], 0}); continue; }
    int w = x->w; z3::expr r(C());
    Expr *A = x->k[0], *B = x->k[1];
    auto b1 = [&](z3::expr c) { return z3::ite(c, C().bv_val(1, 1), C().bv_val(0, 1)); };
    auto isP2 = [](Expr* y) { return isC(y) && y->c && !(y->c & (y->c - 1)); };
    auto lg = [](u128 v) { int n = 0; while (v > 1) { v >>= 1; n++; } return n; };
    switch (x->op) {
    case CONST: r = bvconst(x->c, w); break;
    case VAR: r = C().bv_const(("b" + u128s(x->c)).c_str(), w); break;
    case ADD: r = G(A) + G(B); break;
    case SUB: r = G(A) - G(B); break;
    case MUL: if (isP2(B)) r = z3::shl(G(A), C().bv_val(lg(B->c), w)); else r = G(A) * G(B); break;
    case UDIV: if (isP2(B)) { int k = lg(B->c); r = k == 0 ? G(A) : z3::zext(G(A).extract(w - 1, k), k); } else r = z3::udiv(G(A), G(B)); break;
    case UREM: if (isP2(B)) { int k = lg(B->c); r = k == 0 ? C().bv_val(0, w) : z3::zext(G(A).extract(k - 1, 0), w - k); } else r = z3::urem(G(A), G(B)); break;
    case SDIV: r = G(A) / G(B); break;
    case SREM: r = z3::srem(G(A), G(B)); break;
    case AND: r = G(A) & G(B); break;
    case OR: r = G(A) | G(B); break;
    case XOR: r = G(A) ^ G(B); break;
    case SHL: r = z3::shl(G(A), G(B)); break;
    case LSHR: r = z3::lshr(G(A), G(B)); break;
    case ASHR: r = z3::ashr(G(A), G(B)); break;
    case ZEXT: r = z3::zext(G(A), w - A->w); break;
    case SEXT: r = z3::sext(G(A), w - A->w); break;
    case EXTRACT: r = G(A).extract(w - 1, 0); break;
    case EQ: r = b1(G(A) == G(B)); break;
    case ULT: r = b1(z3::ult(G(A), G(B))); break;
    case ULE: r = b1(z3::ule(G(A), G(B))); break;
    case SLT: r = b1(G(A) < G(B)); break;
    case SLE: r = b1(G(A) <= G(B)); break;
    case ITE: r = z3::ite(G(A) == C().bv_val(1, 1), G(B), G(x->k[2])); break;
    case CTPOP: { int aw = A->w; // parallel sum by halving
      std::function<z3::expr(int, int)> f = [&](int lo, int n) -> z3::expr {
        if (n == 1) return z3::zext(G(A).extract(lo, lo), w > 1 ? w - 1 : 0); return f(lo, n / 2) + f(lo + n / 2, n - n / 2); };
      r = f(0, aw); break; }
    case CTLZ: { r = C().bv_val(A->w, w); for (int b = 0; b < A->w; b++) r = z3::ite(G(A).extract(b, b) == C().bv_val(1, 1), C().bv_val(A->w - 1 - b, w), r); break; }
    case CTTZ: { r = C().bv_val(A->w, w); for (int b = A->w - 1; b >= 0; b--) r = z3::ite(G(A).extract(b, b) == C().bv_val(1, 1), C().bv_val(b, w), r); break; }
    default: fprintf(stderr, "bv op %d\n", x->op); abort();
    }
    bvc().emplace(x, r); st.pop_back();
  }
  return bvc().find(e)->second;
}

static void collectVars(const std::vector<Expr*>& cs, std::vector<Expr*>& vars) {
  std::unordered_map<Expr*, bool> seen; std::vector<Expr*> st(cs.begin(), cs.end());
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (seen[x]) continue; seen[x] = true; if (x->op == VAR) vars.push_back(x); for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
}
static bool holds(const std::vector<Expr*>& cs, const std::vector<u128>& m) {
  EvalMemo memo; for (Expr* c : cs) if (!evalExpr(c, m, memo)) return false;
  return true;
}
static u128 num(z3::expr v) { // numeral -> u128
  std::string s = v.get_decimal_string(0); mpz_class z(s); return U(z);
}
static Res runLIA(const std::vector<Expr*>& cs, std::vector<u128>& model, bool& abstracted) {
  std::set<int> deps; std::vector<z3::expr> fs;
  for (Expr* c : cs) fs.push_back(tbool(c, deps));
  // closure over definitions
  std::vector<int> todo(deps.begin(), deps.end()); std::set<int> all(deps);
  while (!todo.empty()) { int a = todo.back(); todo.pop_back(); for (int d : atoms[a].deps) if (all.insert(d).second) todo.push_back(d); }
  for (int a : all) for (auto& d : atoms[a].defs) fs.push_back(d);
  // nonlinear?
  auto attempt = [&](bool lin, int ms) -> Res {
    z3::expr_vector as(C());
    std::map<unsigned, z3::expr> sub; bool nl = false;
    std::function<z3::expr(z3::expr)> rw;
    std::unordered_map<unsigned, z3::expr> memo; std::vector<z3::expr> bounds;
    auto atomBound = [&](z3::expr v, mpz_class& lo, mpz_class& hi) -> bool {
      std::string n = v.decl().name().str(); size_t i = 0; while (i < n.size() && !isdigit(n[i])) i++; int id = atoi(n.c_str() + i); lo = atoms[id].lo; hi = atoms[id].hi; return true; };
    std::map<std::string, z3::expr> mono;
    rw = [&](z3::expr e) -> z3::expr {
      auto it = memo.find(e.id()); if (it != memo.end()) return it->second;
      z3::expr r = e;
      if (e.is_app() && e.num_args() > 0) {
        if (e.decl().decl_kind() == Z3_OP_MUL) {
          std::vector<z3::expr> nv; z3::expr k = C().int_val(1);
          std::vector<z3::expr> stk; for (unsigned i = 0; i < e.num_args(); i++) stk.push_back(e.arg(i));
          while (!stk.empty()) { z3::expr x = stk.back(); stk.pop_back(); if (x.is_numeral()) k = k * x; else if (x.is_app() && x.decl().decl_kind() == Z3_OP_MUL) for (unsigned i = 0; i < x.num_args(); i++) stk.push_back(x.arg(i)); else nv.push_back(x); }
          if (nv.size() > 1) {
            nl = true;
            if (lin) {
              std::vector<std::string> ns; for (auto& x : nv) ns.push_back(x.to_string()); std::sort(ns.begin(), ns.end()); std::string key; for (auto& s : ns) key += s + "*";
              auto mi = mono.find(key);
              if (mi == mono.end()) {
                z3::expr f = C().int_const(("m_" + key).c_str());
                mpz_class l = 1, h = 1; for (auto& x : nv) { mpz_class a, b; atomBound(x, a, b); mpz_class c[4] = {l * a, l * b, h * a, h * b}; l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4); }
                bounds.push_back(f >= zc(l) && f <= zc(h));
                if (nv.size() == 2) { // McCormick envelope
                  mpz_class a, b, c, d; atomBound(nv[0], a, b); atomBound(nv[1], c, d); z3::expr x = nv[0], y = nv[1];
                  bounds.push_back(f >= zc(a) * y + x * zc(c) - zc(a * c)); bounds.push_back(f >= zc(b) * y + x * zc(d) - zc(b * d));
                  bounds.push_back(f <= zc(b) * y + x * zc(c) - zc(b * c)); bounds.push_back(f <= zc(a) * y + x * zc(d) - zc(a * d));
                }
                mi = mono.emplace(key, f).first;
              }
              r = k.simplify().is_numeral() ? (k.simplify() * mi->second) : k * mi->second;
            }
          }
        } else if (lin) {
          z3::expr_vector av(C()); for (unsigned i = 0; i < e.num_args(); i++) av.push_back(rw(e.arg(i)));
          r = e.decl()(av);
        } else { for (unsigned i = 0; i < e.num_args(); i++) rw(e.arg(i)); }
      }
      memo.emplace(e.id(), r); return r;
    };
    z3::solver s(C());
    z3::params p(C()); p.set("timeout", (unsigned)ms); s.set(p);
    for (auto& f : fs) s.add(rw(f));
    for (auto& b : bounds) s.add(b);
    if (!lin && !nl) return UNKNOWN;
    if (lin) g_smt.lia++; else g_smt.nia++;
    z3::check_result cr;
    try { cr = s.check(); } catch (z3::exception& ex) { return UNKNOWN; }
    if (cr == z3::unsat) return UNSAT;
    if (cr == z3::sat) {
      z3::model m = s.get_model();
      model.assign(g_vars.size(), 0); for (size_t i = 0; i < g_vars.size(); i++) model[i] = g_vars[i].lo;
      std::vector<Expr*> vars; collectVars(cs, vars);
      for (Expr* v : vars) { auto it = tcache.find(v); if (it == tcache.end()) continue; z3::expr z = m.eval(atoms[it->second.p.begin()->first[0]].ze, true); if (z.is_numeral()) model[(size_t)v->c] = num(z) & maskw(v->w); }
      if (holds(cs, model)) return SAT;
      abstracted = true; return UNKNOWN;
    }
    return UNKNOWN;
  };
  bool ab0 = abstracted;
  Res r = attempt(true, g_cfg.lia_ms);
  if (r != UNKNOWN) return r;
  (void)ab0;
  return attempt(false, g_cfg.nia_ms);
}
static Res runBV(const std::vector<Expr*>& cs, std::vector<u128>& model) {
  g_smt.bv++;
  z3::solver s = z3::solver(C(), "QF_BV");
  z3::params p(C()); p.set("timeout", (unsigned)g_cfg.bv_ms); s.set(p);
  for (Expr* c : cs) s.add(bv(c) == C().bv_val(1, 1));
  std::vector<Expr*> vars; collectVars(cs, vars);
  for (Expr* v : vars) {
    if (v->iv.ul > 0) s.add(z3::uge(bv(v), bvconst(v->iv.ul, v->w)));
    if (v->iv.uh < maskw(v->w)) s.add(z3::ule(bv(v), bvconst(v->iv.uh, v->w)));
  }
  z3::check_result cr;
  try { cr = s.check(); } catch (z3::exception& ex) { return UNKNOWN; }
  if (cr == z3::unsat) return UNSAT;
  if (cr == z3::sat) {
    z3::model m = s.get_model();
    model.assign(g_vars.size(), 0); for (size_t i = 0; i < g_vars.size(); i++) model[i] = g_vars[i].lo;
    for (Expr* v : vars) model[(size_t)v->c] = num(m.eval(z3::bv2int(bv(v), false), true).simplify());
    if (holds(cs, model)) return SAT;
    fprintf(stderr, "symx: BV model does not evaluate\n");
    return UNKNOWN;
  }
  return UNKNOWN;
}

Res smtCheck(const std::vector<Expr*>& cs0, std::vector<u128>& model) {
  std::vector<Expr*> cs; for (Expr* c : cs0) { if (isFalse(c)) return UNSAT; if (!isTrue(c)) cs.push_back(c); }
  double t0 = now();
  g_smt.queries++;
  Res r = UNKNOWN; bool ab = false;
  if (g_cfg.bv_first && !g_cfg.no_bv) r = runBV(cs, model);
  if (r == UNKNOWN && !g_cfg.no_lia) r = runLIA(cs, model, ab);
  if (r == UNKNOWN && !g_cfg.bv_first && !g_cfg.no_bv) r = runBV(cs, model);
  double dt = now() - t0; g_smt.time += dt; if (dt > g_smt.maxq) g_smt.maxq = dt;
  if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) { fprintf(stderr, "slow query %.2fs res=%d\n", dt, r); for (Expr* c : cs) fprintf(stderr, "   %s\n", dump(c, 8).c_str()); }
  if (r == SAT) g_smt.sat++; else if (r == UNSAT) g_smt.unsat++; else g_smt.unknown++;
  return r;
}
