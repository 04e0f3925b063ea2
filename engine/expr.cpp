#include <algorithm>
#include "expr.h"
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <unordered_set>
#include <deque>

std::vector<VarInfo> g_vars;
size_t g_nexpr = 0;
static std::deque<Expr> pool;

struct H { size_t operator()(const Expr* e) const {
  size_t h = e->op * 1000003u + e->w;
  for (int i = 0; i < 3; i++) h = h * 0x9E3779B97F4A7C15ull + (e->k[i] ? e->k[i]->id + 1 : 0);
  h = h * 0x9E3779B97F4A7C15ull + (uint64_t)e->c; h = h * 0x9E3779B97F4A7C15ull + (uint64_t)(e->c >> 64);
  return h ^ (h >> 29); } };
struct E { bool operator()(const Expr* a, const Expr* b) const {
  return a->op == b->op && a->w == b->w && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] && a->c == b->c; } };
static std::unordered_set<Expr*, H, E> table;

std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }
static int bitlen(u128 v) { int n = 0; while (v) { n++; v >>= 1; } return n; }
static int ctz128(u128 v, int w) { if (!v) return w; int n = 0; while (!(v & 1)) { v >>= 1; n++; } return n; }
static bool pow2(u128 v) { return v && !(v & (v - 1)); }

Iv fullIv(int w) { return Iv{0, maskw(w), sminw(w), smaxw(w)}; }
void ivNorm(Iv& v, int w) {
  u128 half = (u128)1 << (w - 1);
  // signed from unsigned
  if (v.uh < half) { if ((i128)v.ul > v.sl) v.sl = (i128)v.ul; if ((i128)v.uh < v.sh) v.sh = (i128)v.uh; }
  else if (v.ul >= half) { i128 a = sxt(v.ul, w), b = sxt(v.uh, w); if (a > v.sl) v.sl = a; if (b < v.sh) v.sh = b; }
  // unsigned from signed
  if (v.sl >= 0) { if ((u128)v.sl > v.ul) v.ul = (u128)v.sl; if ((u128)v.sh < v.uh) v.uh = (u128)v.sh; }
  else if (v.sh < 0) { u128 a = (u128)v.sl & maskw(w), b = (u128)v.sh & maskw(w); if (a > v.ul) v.ul = a; if (b < v.uh) v.uh = b; }
}
Iv ivMeet(const Iv& a, const Iv& b, int w, bool& empty) {
  Iv r; r.ul = a.ul > b.ul ? a.ul : b.ul; r.uh = a.uh < b.uh ? a.uh : b.uh;
  r.sl = a.sl > b.sl ? a.sl : b.sl; r.sh = a.sh < b.sh ? a.sh : b.sh;
  empty = r.ul > r.uh || r.sl > r.sh;
  if (!empty) { ivNorm(r, w); empty = r.ul > r.uh || r.sl > r.sh; }
  return r;
}
static Iv constIv(u128 v, int w) { return Iv{v, v, sxt(v, w), sxt(v, w)}; }

static bool addo(u128 a, u128 b, u128 m, u128& r) { r = a + b; return r < a || r > m; }
static bool mulo(u128 a, u128 b, u128 m, u128& r) { return __builtin_mul_overflow(a, b, &r) || r > m; }

Iv ivOp(Expr* e, const Iv* a, const Iv* b, const Iv* c) {
  int w = e->w; Iv r = fullIv(w); u128 m = maskw(w), t, t2; i128 s, s2;
  switch (e->op) {
  case CONST: return constIv(e->c, w);
  case VAR: return e->iv;
  case ADD:
    if (!addo(a->uh, b->uh, m, t)) { r.ul = a->ul + b->ul; r.uh = t; }
    else if (addo(a->ul, b->ul, m, t2)) { // both overflow: wraps exactly once
      r.ul = t2 & m; r.uh = (a->uh + b->uh) & m; }
    if (!__builtin_add_overflow(a->sl, b->sl, &s) && !__builtin_add_overflow(a->sh, b->sh, &s2) && s >= sminw(w) && s2 <= smaxw(w)) { r.sl = s; r.sh = s2; }
    break;
  case SUB:
    if (a->ul >= b->uh) { r.ul = a->ul - b->uh; r.uh = a->uh - b->ul; }
    else if (a->uh < b->ul) { r.ul = (a->ul - b->uh) & m; r.uh = (a->uh - b->ul) & m; }
    if (!__builtin_sub_overflow(a->sl, b->sh, &s) && !__builtin_sub_overflow(a->sh, b->sl, &s2) && s >= sminw(w) && s2 <= smaxw(w)) { r.sl = s; r.sh = s2; }
    break;
  case MUL: {
    if (!mulo(a->uh, b->uh, m, t)) { r.ul = a->ul * b->ul; r.uh = t; }
    i128 p[4]; bool ok = true;
    ok &= !__builtin_mul_overflow(a->sl, b->sl, &p[0]); ok &= !__builtin_mul_overflow(a->sl, b->sh, &p[1]);
    ok &= !__builtin_mul_overflow(a->sh, b->sl, &p[2]); ok &= !__builtin_mul_overflow(a->sh, b->sh, &p[3]);
    if (ok) { i128 lo = p[0], hi = p[0]; for (int i = 1; i < 4; i++) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; }
      if (lo >= sminw(w) && hi <= smaxw(w)) { r.sl = lo; r.sh = hi; } }
    break; }
  // division by zero ends a path before the quotient is built, so a divisor is at least 1
  case UDIV: if (b->uh) { r.ul = a->ul / b->uh; r.uh = a->uh / (b->ul ? b->ul : 1); } break;
  case UREM: if (b->uh) { r.ul = 0; r.uh = b->uh - 1; if (a->uh < r.uh) r.uh = a->uh;
      if (b->ul == b->uh && a->ul / b->ul == a->uh / b->ul) { r.ul = a->ul % b->ul; r.uh = a->uh % b->ul; } } break;
  case SDIV: if (b->sl > 0 && a->sl > sminw(128)) { i128 q[4] = {a->sl / b->sl, a->sl / b->sh, a->sh / b->sl, a->sh / b->sh}; r.sl = r.sh = q[0]; for (auto v : q) { if (v < r.sl) r.sl = v; if (v > r.sh) r.sh = v; } } break;
  case SREM: if (b->sl > 0) { r.sl = a->sl >= 0 ? 0 : -(b->sh - 1); r.sh = a->sh < 0 ? 0 : b->sh - 1;
      if (a->sl >= 0 && a->sh < r.sh) r.sh = a->sh; } break;
  case AND: r.ul = 0; r.uh = a->uh < b->uh ? a->uh : b->uh; break;
  case OR: { r.ul = a->ul > b->ul ? a->ul : b->ul; int n = bitlen(a->uh | b->uh); r.uh = n >= 128 ? m : (((u128)1 << n) - 1) & m; break; }
  case XOR: { int n = bitlen(a->uh | b->uh); r.ul = 0; r.uh = n >= 128 ? m : (((u128)1 << n) - 1) & m; break; }
  case SHL: break;
  case LSHR: if (b->uh < (u128)w) { r.ul = a->ul >> (int)b->uh; r.uh = a->uh >> (int)b->ul; } else { r.ul = 0; r.uh = a->uh; } break;
  case ASHR: if (b->uh < (u128)w) { i128 q[4] = {a->sl >> (int)b->ul, a->sl >> (int)b->uh, a->sh >> (int)b->ul, a->sh >> (int)b->uh}; r.sl = r.sh = q[0]; for (auto v : q) { if (v < r.sl) r.sl = v; if (v > r.sh) r.sh = v; } } break;
  case ZEXT: r.ul = a->ul; r.uh = a->uh; break;
  case SEXT: r.sl = a->sl; r.sh = a->sh; break;
  case EXTRACT: {
    int off = (int)e->c; u128 l = a->ul >> off, h = a->uh >> off;
    if (h <= m) { r.ul = l; r.uh = h; }
    else if ((h & ~m) == (l & ~m)) { r.ul = l & m; r.uh = h & m; }
    if (off == 0 && a->sl >= sminw(w) && a->sh <= smaxw(w)) { r.sl = a->sl; r.sh = a->sh; }
    break; }
  case CONCAT: r.ul = (a->ul << e->k[1]->w) | b->ul; r.uh = (a->uh << e->k[1]->w) | b->uh; break;
  case EQ: if (a->ul > b->uh || b->ul > a->uh || a->sl > b->sh || b->sl > a->sh) return constIv(0, 1);
    if (a->ul == a->uh && b->ul == b->uh && a->ul == b->ul) return constIv(1, 1); break;
  case ULT: if (a->uh < b->ul) return constIv(1, 1); if (a->ul >= b->uh) return constIv(0, 1); break;
  case ULE: if (a->uh <= b->ul) return constIv(1, 1); if (a->ul > b->uh) return constIv(0, 1); break;
  case SLT: if (a->sh < b->sl) return constIv(1, 1); if (a->sl >= b->sh) return constIv(0, 1); break;
  case SLE: if (a->sh <= b->sl) return constIv(1, 1); if (a->sl > b->sh) return constIv(0, 1); break;
  case ITE: if (a->ul == a->uh) return a->ul ? *b : *c;
    { Expr* q = e->k[0]; // minimum, maximum, clamps: the condition bounds the branch values
      if (q->op >= ULT && q->op <= SLE) { Iv t = *b, f = *c; bool sg = q->op == SLT || q->op == SLE; const Iv& p0 = q->k[0]->iv; const Iv& p1 = q->k[1]->iv; bool any = false;
        auto up = [&](Iv& v, const Iv& o) { if (sg) v.sh = std::min(v.sh, o.sh); else v.uh = std::min(v.uh, o.uh); any = true; };
        auto dn = [&](Iv& v, const Iv& o) { if (sg) v.sl = std::max(v.sl, o.sl); else v.ul = std::max(v.ul, o.ul); any = true; };
        if (e->k[1] == q->k[0]) up(t, p1); if (e->k[1] == q->k[1]) dn(t, p0); if (e->k[2] == q->k[0]) dn(f, p1); if (e->k[2] == q->k[1]) up(f, p0);
        if (any && t.ul <= t.uh && t.sl <= t.sh && f.ul <= f.uh && f.sl <= f.sh) { ivNorm(t, w); ivNorm(f, w); if (t.ul <= t.uh && t.sl <= t.sh && f.ul <= f.uh && f.sl <= f.sh)
          return Iv{std::min(t.ul, f.ul), std::max(t.uh, f.uh), std::min(t.sl, f.sl), std::max(t.sh, f.sh)}; } } }
    r.ul = b->ul < c->ul ? b->ul : c->ul; r.uh = b->uh > c->uh ? b->uh : c->uh;
    r.sl = b->sl < c->sl ? b->sl : c->sl; r.sh = b->sh > c->sh ? b->sh : c->sh; return r;
  case CTPOP: r.ul = 0; r.uh = e->k[0]->w; if (a->uh == 0) r.uh = 0; break;
  case CTLZ: case CTTZ: r.ul = 0; r.uh = e->k[0]->w; break;
  default: break;
  }
  ivNorm(r, w);
  return r;
}

u128 evalOp(Op op, int w, u128 a, int wa, u128 b, int wb, u128 c, u128 imm) {
  u128 m = maskw(w);
  switch (op) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? a / b : m;
  case UREM: return b ? a % b : a;
  case SDIV: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u128)(x / y) & m; }
  case SREM: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
  case LSHR: return b >= (u128)w ? 0 : a >> (int)b;
  case ASHR: { i128 x = sxt(a, w); return b >= (u128)w ? (x < 0 ? m : 0) : (u128)(x >> (int)b) & m; }
  case ZEXT: return a;
  case SEXT: return (u128)sxt(a, wa) & m;
  case EXTRACT: return (a >> (int)imm) & m;
  case CONCAT: return (a << wb) | b;
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sxt(a, wa) < sxt(b, wa);
  case SLE: return sxt(a, wa) <= sxt(b, wa);
  case ITE: return a ? b : c;
  case CTPOP: return __builtin_popcountll((uint64_t)a) + __builtin_popcountll((uint64_t)(a >> 64));
  case CTLZ: return wa - bitlen(a);
  case CTTZ: return a ? ctz128(a, wa) : wa;
  default: fprintf(stderr, "evalOp %d\n", op); abort();
  }
}

static Expr* intern(Expr& t) {
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.id = pool.size() + 1; g_nexpr++;
  t.vm[0] = t.vm[1] = 0;
  for (int i = 0; i < 3; i++) if (t.k[i]) { t.vm[0] |= t.k[i]->vm[0]; t.vm[1] |= t.k[i]->vm[1]; }
  if (t.op == VAR) t.vm[(uint64_t)t.c / 64 % 2] |= 1ull << ((uint64_t)t.c % 64);
  if (!t.fp && t.op != VAR) t.iv = ivOp(&t, t.k[0] ? &t.k[0]->iv : nullptr, t.k[1] ? &t.k[1]->iv : nullptr, t.k[2] ? &t.k[2]->iv : nullptr);
  t.tz = 0;
  switch (t.op) {
  case CONST: t.tz = ctz128(t.c, t.w); break;
  case ADD: case SUB: case OR: case XOR: t.tz = std::min(t.k[0]->tz, t.k[1]->tz); break;
  case AND: t.tz = std::max(t.k[0]->tz, t.k[1]->tz); break;
  case MUL: t.tz = std::min((int)t.w, t.k[0]->tz + t.k[1]->tz); break;
  case SHL: t.tz = t.k[0]->tz; break;
  case ZEXT: case SEXT: t.tz = t.k[0]->tz; break;
  case EXTRACT: t.tz = (t.k[0]->tz > t.c) ? std::min((int)t.w, (int)(t.k[0]->tz - t.c)) : 0; break;
  case CONCAT: t.tz = t.k[1]->tz; break;
  case ITE: t.tz = std::min(t.k[1]->tz, t.k[2]->tz); break;
  case UREM: if (isC(t.k[1])) t.tz = std::min((int)t.k[0]->tz, ctz128(t.k[1]->c, t.w)); break;
  default: break;
  }
  pool.push_back(t);
  Expr* p = &pool.back();
  table.insert(p);
  return p;
}
Expr* mkConst(u128 v, int w) {
  Expr t{}; t.op = CONST; t.w = w; t.c = v & maskw(w); return intern(t);
}
Expr* mkVar(const std::string& name, int w, u128 lo, u128 hi, bool havoc) {
  Expr t{}; t.op = VAR; t.w = w; t.c = g_vars.size();
  t.iv = fullIv(w); t.iv.ul = lo; t.iv.uh = hi; ivNorm(t.iv, w);
  Expr* e = intern(t);
  g_vars.push_back({name, w, lo, hi, e, havoc});
  return e;
}
Expr* mkFp(Op op, Expr* a, u128 imm, int w) {
  static u128 uniq = 0;
  Expr t{}; t.op = op; t.w = w; t.fp = 1; t.k[0] = a; t.c = op == FUNK ? ++uniq : imm; t.iv = fullIv(1);
  return intern(t);
}
extern bool g_poly; static Expr* extractLin(Expr* a, int w);
static Expr* raw(Op op, int w, Expr* a, Expr* b, Expr* c, u128 imm) {
  Expr t{}; t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = imm;
  Expr* e = intern(t);
  if (e->op != CONST && e->iv.ul == e->iv.uh) return mkConst(e->iv.ul, w);
  return e;
}
Expr* mkNot(Expr* a) {
  assert(a->w == 1);
  switch (a->op) {
  case CONST: return mkConst(!a->c, 1);
  case XOR: if (isC(a->k[1]) && a->k[1]->c == 1) return a->k[0]; break;
  case ULT: return mk(ULE, 1, a->k[1], a->k[0]);
  case ULE: return mk(ULT, 1, a->k[1], a->k[0]);
  case SLT: return mk(SLE, 1, a->k[1], a->k[0]);
  case SLE: return mk(SLT, 1, a->k[1], a->k[0]);
  default: break;
  }
  return raw(XOR, 1, a, mkConst(1, 1), nullptr, 0);
}
Expr* mkExtract(Expr* a, int off, int w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> off, w);
  if (g_poly && !off && w > 1 && (a->op == ADD || a->op == SUB || a->op == MUL)) {
    if (Expr* r = extractLin(a, w)) return r;
    if (a->op == MUL && !isC(a->k[1])) return mk(MUL, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); }
  if (off > 0) return mk(EXTRACT, w, mk(UDIV, a->w, a, mkConst((u128)1 << off, a->w)), nullptr, nullptr, 0);
  return mk(EXTRACT, w, a, nullptr, nullptr, 0);
}

// linear forms (modulo 2^w): sorted atoms with non-zero coefficients, plus a constant
struct Lin { std::vector<std::pair<Expr*, u128>> t; u128 c = 0; };
static const size_t LINMAX = 40;
static std::unordered_map<Expr*, Lin> linCache;
static Lin linAdd(const Lin& a, const Lin& b, u128 f, int w) {
  Lin r; size_t i = 0, j = 0; u128 m = maskw(w);
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first->id < b.t[j].first->id)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first->id < a.t[i].first->id) { u128 q = b.t[j].second * f & m; if (q) r.t.push_back({b.t[j].first, q}); j++; }
    else { u128 q = (a.t[i].second + b.t[j].second * f) & m; if (q) r.t.push_back({a.t[i].first, q}); i++; j++; }
  }
  r.c = (a.c + b.c * f) & m; return r;
}
static const Lin& linOf(Expr* e) {
  auto it = linCache.find(e); if (it != linCache.end()) return it->second;
  Lin r; int w = e->w;
  if (e->op == CONST) r.c = e->c;
  else if (e->op == ADD || e->op == SUB) { Lin a = linOf(e->k[0]), b = linOf(e->k[1]); r = linAdd(a, b, e->op == ADD ? 1 : maskw(w), w); }
  else if (e->op == MUL && isC(e->k[1])) { Lin a = linOf(e->k[0]); r = linAdd(Lin(), a, e->k[1]->c, w); }
  else r.t.push_back({e, 1});
  if (r.t.size() > LINMAX) { r = Lin(); r.t.push_back({e, 1}); }
  return linCache[e] = r;
}
static bool overlap(const Lin& a, const Lin& b) {
  size_t i = 0, j = 0; while (i < a.t.size() && j < b.t.size()) { if (a.t[i].first == b.t[j].first) return true; if (a.t[i].first->id < b.t[j].first->id) i++; else j++; } return false;
}
static bool trivial(Expr* e, const Lin& l) { return l.t.size() == 1 && l.t[0].first == e; }
// positive and negative part: l = p - n with the coefficients and the constant taken as signed numbers
static void split(const Lin& l, int w, Lin& p, Lin& n) {
  for (auto& t : l.t) if (sxt(t.second, w) >= 0) p.t.push_back(t); else n.t.push_back({t.first, (0 - t.second) & maskw(w)});
  if (sxt(l.c, w) >= 0) p.c = l.c; else n.c = (0 - l.c) & maskw(w);
}
static Expr* rawP(Op op, int w, Expr* a, Expr* b) { if (isC(a) && isC(b)) return mkConst(evalOp(op, w, a->c, w, b->c, w, 0, 0), w); if (op == ADD && isC(a)) std::swap(a, b); if ((op == ADD || op == SUB) && isC(b) && !b->c) return a; return raw(op, w, a, b, nullptr, 0); }
static Expr* sumOf(const Lin& p, int w) { // all terms added
  Expr* r = nullptr;
  for (auto& t : p.t) { Expr* x = t.second == 1 ? t.first : rawP(MUL, w, t.first, mkConst(t.second, w)); r = r ? rawP(ADD, w, r, x) : x; }
  if (!r) return mkConst(p.c, w);
  return p.c ? rawP(ADD, w, r, mkConst(p.c, w)) : r;
}
static Expr* build(const Lin& l, int w) {
  Lin p, n; split(l, w, p, n);
  if (n.t.empty()) { Expr* x = sumOf(p, w); return n.c ? rawP(ADD, w, x, mkConst(0 - n.c, w)) : x; }
  if (p.t.empty() && p.c == 0) return rawP(SUB, w, mkConst(0, w), sumOf(n, w));
  return rawP(SUB, w, sumOf(p, w), sumOf(n, w));
}
// value as an unbounded integer stays below 2^w (all coefficients taken as positive)
static bool exactSum(const Lin& l, int w) {
  u128 s = l.c, q, m = maskw(w); for (auto& t : l.t) { if (mulo(t.second, t.first->iv.uh, m, q) || addo(s, q, m, s)) return false; } return true;
}

static Expr* extractLin(Expr* a, int w) { const Lin& l = linOf(a); if (trivial(a, l)) return nullptr; Lin r; r.c = l.c & maskw(w); for (auto& t : l.t) { Lin o; u128 c = t.second & maskw(w); if (!c) continue; o.t.push_back({mkExtract(t.first, 0, w), c}); if (isC(o.t[0].first)) { r.c = (r.c + o.t[0].first->c * c) & maskw(w); continue; } Lin q = linOf(o.t[0].first); r = linAdd(r, q, c, w); } return build(r, w); }
// polynomials: products of sums are multiplied out (valid modulo 2^w); a monomial is a left-nested product of its factors
bool g_poly = false;
static void factors(Expr* e, std::vector<Expr*>& v) { if (e->op == MUL && !isC(e->k[0]) && !isC(e->k[1])) { factors(e->k[0], v); factors(e->k[1], v); } else v.push_back(e); }
static Expr* monomial(Expr* a, Expr* b, int w) {
  std::vector<Expr*> v; factors(a, v); factors(b, v); std::sort(v.begin(), v.end(), [](Expr* x, Expr* y) { return x->id < y->id; });
  Expr* r = v[0]; for (size_t i = 1; i < v.size(); i++) r = raw(MUL, w, r, v[i], nullptr, 0); return r;
}
static bool polyMul(Expr* a, Expr* b, int w, Lin& r) {
  const Lin x = linOf(a), y = linOf(b); size_t nx = x.t.size() + (x.c != 0), ny = y.t.size() + (y.c != 0); if (nx * ny > 30 || (nx <= 1 && ny <= 1)) return false;
  r = Lin(); Lin one; one.t.resize(1);
  for (auto& p : x.t) for (auto& q : y.t) { one.t[0] = {monomial(p.first, q.first, w), p.second * q.second & maskw(w)}; if (one.t[0].second) r = linAdd(r, one, 1, w); }
  Lin xs = x, ys = y; xs.c = ys.c = 0; r = linAdd(r, xs, y.c, w); r = linAdd(r, ys, x.c, w); r.c = (r.c + x.c * y.c) & maskw(w); return true;
}

Expr* mk(Op op, int w, Expr* a, Expr* b, Expr* c, u128 imm) {
  if ((op >= ADD && op <= ASHR && (a->w != w || b->w != w)) || (op >= EQ && op <= SLE && a->w != b->w)) { fprintf(stderr, "width mismatch in op %d: %d %d %d\n", op, w, a->w, b->w); abort(); }
  // constant folding
  if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
    return mkConst(evalOp(op, w, a->c, a->w, b ? b->c : 0, b ? b->w : 0, c ? c->c : 0, imm), w);
  switch (op) {
  case ADD:
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->c == 0) return a;
      if (a->op == ADD && isC(a->k[1])) return mk(ADD, w, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if (a->op == SUB && isC(a->k[0])) return mk(SUB, w, mkConst(a->k[0]->c + b->c, w), a->k[1]);
    }
    if (b->op == SUB && b->k[1] == a) return b->k[0];
    if (a->op == SUB && a->k[1] == b) return a->k[0];
    for (int i = 0; i < 2 && !isC(b); i++) {  // x + (x / c) * -c
      Expr* h = i ? b : a; Expr* l = i ? a : b;
      if (h->op == MUL && isC(h->k[1]) && h->k[0]->op == UDIV && sxt(h->k[1]->c, w) < 0) { Expr* d = mkConst(0 - h->k[1]->c, w); if (mk(UDIV, w, l, d) == h->k[0]) return mk(UREM, w, l, d); } }
    for (int i = 0; i < 2 && !isC(b); i++) {  // (x / c) * c + (x mod c)
      Expr* h = i ? b : a; Expr* l = i ? a : b;
      if (h->op != MUL || !isC(h->k[1])) continue;
      u128 cc = h->k[1]->c; Expr* z = h->k[0];
      if (z->op == ZEXT) z = z->k[0];
      if (z->op == EXTRACT && z->c == 0 && z->k[0]->iv.uh <= maskw(z->w)) z = z->k[0];
      if (l->op == ZEXT) l = l->k[0];
      if (g_poly && w == 128 && cc == (u128)1 << 64 && z->op == UDIV && z->w == 128 && isC(z->k[1]) && z->k[1]->c == cc && l->w == 64 && mkExtract(z->k[0], 0, 64) == l) return z->k[0]; // halves of x
      Expr* x = nullptr;
      if (l->op == EXTRACT && l->c == 0 && l->w < 128 && cc == (u128)1 << l->w) x = l->k[0];
      else if (l->op == UREM && isC(l->k[1]) && l->k[1]->c == cc) x = l->k[0];
      if (!x || x->w > w || cc > maskw(x->w)) continue;
      Expr* q = mk(UDIV, x->w, x, mkConst(cc, x->w));
      if (q->op == ZEXT) q = q->k[0];
      if (q == z) return mk(ZEXT, w, x);
      u128 mm;
      if (z->op == UREM && isC(z->k[1]) && z->k[1]->c && (z->k[0] == q || (z->k[0]->op == ZEXT && z->k[0]->k[0] == q)) && !mulo(z->k[1]->c, cc, maskw(x->w), mm)) return mk(ZEXT, w, mk(UREM, x->w, x, mkConst(mm, x->w)));
    }
    if (w > 1) { const Lin& x = linOf(a); const Lin& y = linOf(b); if (overlap(x, y) || (x.c && y.c)) { Lin z = linAdd(x, y, 1, w); return build(z, w); } }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mk(ADD, w, a, mkConst(0 - b->c, w));
    if (b->op == SUB && isC(b->k[0]) && (isC(a) || b->k[0]->c == 0)) return mk(ADD, w, b->k[1], mk(SUB, w, a, b->k[0]));
    if (b->op == MUL) for (int i = 0; i < 2; i++) { // x - (x / d) * d
      Expr* d = b->k[i]; Expr* q = b->k[1 - i];
      if (q->op == UDIV && (isC(d) ? mk(UDIV, w, a, d) == q : q->k[0] == a && q->k[1] == d)) return mk(UREM, w, a, d); }
    if (a->op == ADD && a->k[0] == b) return a->k[1];
    if (a->op == ADD && a->k[1] == b) return a->k[0];
    if (w > 1) { const Lin& x = linOf(a); const Lin& y = linOf(b); if (overlap(x, y) || (x.c && y.c)) { Lin z = linAdd(x, y, maskw(w), w); return build(z, w); } }
    break;
  case MUL:
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if (a->op == MUL && isC(a->k[1])) return mk(MUL, w, a->k[0], mkConst(a->k[1]->c * b->c, w));
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mk(ITE, w, a->k[0], mk(MUL, w, a->k[1], b), mk(MUL, w, a->k[2], b));
    } else {
      if (g_poly && w > 1) { Lin r; if (polyMul(a, b, w, r)) return build(r, w); if (!trivial(a, linOf(a)) || !trivial(b, linOf(b))) {} else return monomial(a, b, w); }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case UDIV:
    if (isC(b)) {
      if (b->c == 0) break;
      if (b->c == 1) return a;
      if (a->iv.uh < b->c) return mkConst(0, w);
      if (a->op == UDIV && isC(a->k[1])) { u128 t; if (mulo(a->k[1]->c, b->c, maskw(w), t)) return mkConst(0, w); return mk(UDIV, w, a->k[0], mkConst(t, w)); }
      if (a->op == ZEXT && b->c <= maskw(a->k[0]->w)) return mk(ZEXT, w, mk(UDIV, a->k[0]->w, a->k[0], mkConst(b->c, a->k[0]->w)));
      if (a->op == MUL && isC(a->k[1]) && a->k[1]->c % b->c == 0) { u128 t; if (!mulo(a->k[0]->iv.uh, a->k[1]->c, maskw(w), t)) return mk(MUL, w, a->k[0], mkConst(a->k[1]->c / b->c, w)); }
      // (hi * 2^k + lo) / 2^k with lo < 2^k
      if (a->op == ADD && pow2(b->c)) for (int i = 0; i < 2; i++) { Expr* l = a->k[i]; Expr* h = a->k[1 - i]; u128 t;
        if (l->iv.uh < b->c && h->tz >= ctz128(b->c, w) && !addo(h->iv.uh, l->iv.uh, maskw(w), t)) return mk(UDIV, w, h, b); }
      if (a->op == CONCAT && b->c == (u128)1 << a->k[1]->w) return mk(ZEXT, w, a->k[0]);
      if (a->op == ADD || a->op == MUL) { const Lin& l = linOf(a); // (d * q + r) / d
        if (!trivial(a, l) && exactSum(l, w)) { Lin q, r; for (auto& t : l.t) if (t.second % b->c == 0) q.t.push_back({t.first, t.second / b->c}); else r.t.push_back(t);
          r.c = l.c % b->c; q.c = l.c / b->c; if (!q.t.empty() || q.c) { Expr* qe = sumOf(q, w); Expr* re = mk(UDIV, w, sumOf(r, w), b); return mk(ADD, w, qe, re); } } }
    }
    break;
  case UREM:
    if (isC(b)) {
      if (b->c == 0) break;
      if (b->c == 1) return mkConst(0, w);
      if (a->iv.uh < b->c) return a;
      if (a->op == ZEXT && b->c <= maskw(a->k[0]->w)) return mk(ZEXT, w, mk(UREM, a->k[0]->w, a->k[0], mkConst(b->c, a->k[0]->w)));
      if (pow2(b->c)) {
        if (a->tz >= ctz128(b->c, w)) return mkConst(0, w);
        if (a->op == UREM && isC(a->k[1]) && pow2(a->k[1]->c) && a->k[1]->c >= b->c) return mk(UREM, w, a->k[0], b);
        if (a->op == ADD) for (int i = 0; i < 2; i++) if (a->k[i]->tz >= ctz128(b->c, w)) return mk(UREM, w, a->k[1 - i], b);
      }
      if (a->op == ADD || a->op == MUL) { const Lin& l = linOf(a); // (d * q + r) % d
        if (!trivial(a, l) && exactSum(l, w)) { Lin r; for (auto& t : l.t) if (t.second % b->c) r.t.push_back({t.first, t.second % b->c}); r.c = l.c % b->c;
          if (r.t.size() < l.t.size() || r.c != l.c) return mk(UREM, w, sumOf(r, w), b); } }
    }
    break;
  case SDIV: if (a->iv.sl >= 0 && b->iv.sl >= 0) return mk(UDIV, w, a, b); break;
  case SREM: if (a->iv.sl >= 0 && b->iv.sl >= 0) return mk(UREM, w, a, b); break;
  case AND:
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == maskw(w)) return a;
      if (w > 1) {
        if (!((b->c + 1) & b->c)) return mk(UREM, w, a, mkConst(b->c + 1, w));            // low mask
        u128 inv = ~b->c & maskw(w);
        if (!((inv + 1) & inv)) return mk(MUL, w, mk(UDIV, w, a, mkConst(inv + 1, w)), mkConst(inv + 1, w)); // high mask
        if (a->iv.uh <= maskw(bitlen(b->c)) && bitlen(b->c) < w) { // mask high in a's range
          u128 full = maskw(bitlen(a->iv.uh)); if ((b->c & full) == full) return a; }
        if (a->op == AND && isC(a->k[1])) return mk(AND, w, a->k[0], mkConst(a->k[1]->c & b->c, w));
        if (a->op == ZEXT) { if (b->c <= maskw(a->k[0]->w)) return mk(ZEXT, w, mk(AND, a->k[0]->w, a->k[0], mkConst(b->c, a->k[0]->w)));
          return mk(ZEXT, w, mk(AND, a->k[0]->w, a->k[0], mkConst(b->c, a->k[0]->w))); }
      }
    } else {
      if (w == 1 && mkNot(a) == b) return mkConst(0, 1);
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case OR:
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; }
    else if (w == 1 && mkNot(a) == b) return mkConst(1, 1);
    if (w > 1) {
      if (a->tz >= bitlen(b->iv.uh)) return mk(ADD, w, a, b);
      if (b->tz >= bitlen(a->iv.uh)) return mk(ADD, w, b, a);
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case XOR:
    if (isC(a)) std::swap(a, b);
    if (a == b) return mkConst(0, w);
    if (isC(b)) {
      if (b->c == 0) return a;
      if (w == 1) return mkNot(a);
      if (b->c == maskw(w)) return mk(SUB, w, b, a);
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case SHL:
    if (isC(b)) { if (b->c >= (u128)w) return mkConst(0, w); return mk(MUL, w, a, mkConst((u128)1 << (int)b->c, w)); }
    break;
  case LSHR:
    if (isC(b)) { if (b->c >= (u128)w) return mkConst(0, w); return mk(UDIV, w, a, mkConst((u128)1 << (int)b->c, w)); }
    break;
  case ASHR:
    if (isC(b) && b->c == 0) return a;
    if (a->iv.sl >= 0) return mk(LSHR, w, a, b);
    break;
  case ZEXT:
    if (a->w == w) return a;
    if (a->op == ZEXT) return mk(ZEXT, w, a->k[0]);
    if (a->op == EXTRACT && a->c == 0 && a->k[0]->iv.uh <= maskw(a->w)) { Expr* x = a->k[0]; return x->w >= w ? mkExtract(x, 0, w) : mk(ZEXT, w, x); }
    if (g_poly && (a->op == ADD || a->op == MUL)) { const Lin& l = linOf(a); if (!trivial(a, l) && exactSum(l, a->w)) { Lin r; r.c = l.c; for (auto& t : l.t) { Lin o; o.t.push_back({mk(ZEXT, w, t.first), t.second}); r = linAdd(r, o, 1, w); } return build(r, w); } }
    if (a->op == MUL) { u128 t; if (!mulo(a->k[0]->iv.uh, a->k[1]->iv.uh, maskw(a->w), t)) return mk(MUL, w, mk(ZEXT, w, a->k[0]), mk(ZEXT, w, a->k[1])); }
    if (a->op == ADD && isC(a->k[1])) { u128 t; if (!addo(a->k[0]->iv.uh, a->k[1]->c, maskw(a->w), t)) return mk(ADD, w, mk(ZEXT, w, a->k[0]), mkConst(a->k[1]->c, w)); }
    break;
  case SEXT:
    if (a->w == w) return a;
    if (a->iv.sl >= 0) return mk(ZEXT, w, a);
    if (a->op == SEXT) return mk(SEXT, w, a->k[0]);
    break;
  case EXTRACT:
    if (a->op == ZEXT || a->op == SEXT) { Expr* s = a->k[0]; if (s->w == w) return s; if (s->w > w) return mk(EXTRACT, w, s, nullptr, nullptr, 0); return mk(a->op, w, s); }
    if (a->op == EXTRACT) return mk(EXTRACT, w, a->k[0], nullptr, nullptr, 0);
    if (a->op == CONCAT) { if (w == a->k[1]->w) return a->k[1]; if (w < a->k[1]->w) return mk(EXTRACT, w, a->k[1], nullptr, nullptr, 0); }
    if (a->op == ADD && a->k[0]->tz >= w) return mk(EXTRACT, w, a->k[1], nullptr, nullptr, 0);
    if (a->op == ADD && a->k[1]->tz >= w) return mk(EXTRACT, w, a->k[0], nullptr, nullptr, 0);
    if (a->op == UREM && isC(a->k[1]) && pow2(a->k[1]->c) && a->k[1]->c >= ((u128)1 << w)) return mk(EXTRACT, w, a->k[0], nullptr, nullptr, 0);
    if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mk(ITE, w, a->k[0], mk(EXTRACT, w, a->k[1], nullptr, nullptr, 0), mk(EXTRACT, w, a->k[2], nullptr, nullptr, 0));
    if (a->tz >= w) return mkConst(0, w);
    break;
  case CONCAT:
    // concat(x / 2^k [low bits], x mod 2^k) is rebuilt as arithmetic
    return mk(ADD, w, mk(MUL, w, mk(ZEXT, w, a), mkConst((u128)1 << b->w, w)), mk(ZEXT, w, b));
  case EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (a->w == 1) return b->c ? a : mkNot(a);
      if (a->op == ZEXT) { if (b->c > maskw(a->k[0]->w)) return mkConst(0, 1); return mk(EQ, 1, a->k[0], mkConst(b->c, a->k[0]->w)); }
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) {
        bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
        if (t && f) return mkConst(1, 1); if (t) return a->k[0]; if (f) return mkNot(a->k[0]); return mkConst(0, 1); }
      if (a->op == ADD && isC(a->k[1])) return mk(EQ, 1, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
      if (a->op == SUB && isC(a->k[0])) return mk(EQ, 1, a->k[1], mkConst(a->k[0]->c - b->c, a->w));
      if (b->c == 0 && a->op == SUB) return mk(EQ, 1, a->k[0], a->k[1]);
    } else {
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mk(EQ, 1, a->k[0], b->k[0]);
      if (a->w > 1) { const Lin& x = linOf(a); const Lin& y = linOf(b); if (overlap(x, y) || (x.c && y.c)) { Lin z = linAdd(x, y, maskw(a->w), a->w); if (z.t.empty()) return mkConst(z.c == 0, 1); Lin p, n; split(z, a->w, p, n); Expr* pe = sumOf(p, a->w); Expr* ne = sumOf(n, a->w); if (pe != a && pe != b) return mk(EQ, 1, pe, ne); } }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case ULT: case ULE:
    if (a == b) return mkConst(op == ULE, 1);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mk(op, 1, a->k[0], b->k[0]);
    if (op == ULT && isC(b) && b->c == 1) return mk(EQ, 1, a, mkConst(0, a->w));
    if (a->w > 1 && !isC(a) && !isC(b)) { int v = a->w; const Lin& x = linOf(a); const Lin& y = linOf(b); if (overlap(x, y)) {
      u128 t; Expr* d = build(linAdd(y, x, maskw(v), v), v); // b - a
      if (!addo(a->iv.uh, d->iv.uh, maskw(v), t)) { if (op == ULE || d->iv.ul > 0) return mkConst(1, 1); return mkNot(mk(EQ, 1, d, mkConst(0, v))); }
      Expr* f = build(linAdd(x, y, maskw(v), v), v); // a - b
      if (!addo(b->iv.uh, f->iv.uh, maskw(v), t)) { if (op == ULT || f->iv.ul > 0) return mkConst(0, 1); return mk(EQ, 1, f, mkConst(0, v)); }
      if (exactSum(x, v) && exactSum(y, v)) { Lin p, n; split(linAdd(y, x, maskw(v), v), v, p, n); // b - a = p - n; exact when every coefficient is the true difference
        bool ok = exactSum(p, v) && exactSum(n, v); for (auto& q : x.t) if (sxt(q.second, v) < 0) ok = false; for (auto& q : y.t) if (sxt(q.second, v) < 0) ok = false; if (sxt(x.c, v) < 0 || sxt(y.c, v) < 0) ok = false;
        if (ok) { Expr* ne = sumOf(n, v); Expr* pe = sumOf(p, v); if (ne != a || pe != b) return mk(op, 1, ne, pe); } } } }
    { // c <= x / r  iff  c * r <= x;  x / r < c  iff  x < c * r  (no overflow; also for r = 0)
      Expr* d = op == ULE ? b : a; Expr* o = op == ULE ? a : b;
      if (d->op == UDIV && !isC(d->k[1])) {
        u128 t; Expr* x = d->k[0]; Expr* r = d->k[1]; int v = a->w;
        if (mulo(o->iv.uh, r->iv.uh, maskw(v), t) && v <= 64) { v *= 2; x = mk(ZEXT, v, x); r = mk(ZEXT, v, r); o = mk(ZEXT, v, o); }
        if (!mulo(o->iv.uh, r->iv.uh, maskw(v), t)) { Expr* m = mk(MUL, v, o, r); return op == ULE ? mk(ULE, 1, m, x) : mk(ULT, 1, x, m); }
      } }
    break;
  case SLT: case SLE:
    if (a == b) return mkConst(op == SLE, 1);
    if (a->iv.sl >= 0 && b->iv.sl >= 0) return mk(op == SLT ? ULT : ULE, 1, a, b);
    if (a->w > 1 && !isC(a) && !isC(b)) { int v = a->w; const Lin& x = linOf(a); const Lin& y = linOf(b); if (overlap(x, y)) {
      i128 t; Expr* d = build(linAdd(y, x, maskw(v), v), v);
      if (d->iv.sl >= 0 && !__builtin_add_overflow(a->iv.sh, d->iv.sh, &t) && t <= smaxw(v)) { if (op == SLE || d->iv.sl > 0) return mkConst(1, 1); return mkNot(mk(EQ, 1, d, mkConst(0, v))); }
      Expr* f = build(linAdd(x, y, maskw(v), v), v);
      if (f->iv.sl >= 0 && !__builtin_add_overflow(b->iv.sh, f->iv.sh, &t) && t <= smaxw(v)) { if (op == SLT || f->iv.sl > 0) return mkConst(0, 1); return mk(EQ, 1, f, mkConst(0, v)); } } }
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mk(op, 1, a->k[0], b->k[0]);
    break;
  case ITE:
    if (isC(a)) return a->c ? b : c;
    if (b == c) return b;
    if (w == 1 && isC(b) && isC(c)) return b->c ? a : mkNot(a);
    if (w == 1 && isC(b)) return b->c ? mk(OR, 1, a, c) : mk(AND, 1, mkNot(a), c);
    if (w == 1 && isC(c)) return c->c ? mk(OR, 1, mkNot(a), b) : mk(AND, 1, a, b);
    if (a->op == XOR && isC(a->k[1])) return mk(ITE, w, a->k[0], c, b);
    break;
  case CTPOP: if (a->op == ZEXT) return mk(ZEXT, w, mk(CTPOP, a->k[0]->w, a->k[0])); break;
  default: break;
  }
  return raw(op, w, a, b, c, imm);
}

u128 evalExpr(Expr* e, const std::vector<u128>& model, EvalMemo& memo) {
  if (e->op == CONST) return e->c;
  if (e->op == VAR) { size_t i = (size_t)e->c; return i < model.size() ? model[i] : (i < g_vars.size() ? g_vars[i].lo : 0); }
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  // iterative post-order to survive deep chains
  std::vector<std::pair<Expr*, int>> st; st.push_back({e, 0});
  while (!st.empty()) {
    Expr* x = st.back().first; int i = st.back().second;
    if (x->op == CONST || x->op == VAR || memo.count(x)) { st.pop_back(); continue; }
    if (i < 3 && x->k[i]) { st.back().second++; Expr* ch = x->k[i]; if (ch->op != CONST && ch->op != VAR && !memo.count(ch)) st.push_back({ch, 0}); continue; }
    auto val = [&](Expr* y) -> u128 { if (!y) return 0; if (y->op == CONST) return y->c; if (y->op == VAR) { size_t q = (size_t)y->c; return q < model.size() ? model[q] : g_vars[q].lo; } return memo[y]; };
    u128 r = evalOp(x->op, x->w, val(x->k[0]), x->k[0] ? x->k[0]->w : 0, val(x->k[1]), x->k[1] ? x->k[1]->w : 0, val(x->k[2]), x->c);
    memo[x] = r; st.pop_back();
  }
  return memo[e];
}

std::string dump(Expr* e, int d) {
  static const char* n[] = {"C","V","+","-","*","/u","%u","/s","%s","&","|","^","<<",">>u",">>s","zext","sext","extract","concat","==","<u","<=u","<s","<=s","ite","ctpop","ctlz","cttz","fu","fs","froot","funk"};
  if (e->op == CONST) return u128s(e->c);
  if (e->op == VAR) return g_vars[(size_t)e->c].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op] + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + dump(e->k[i], d - 1);
  return s + ")";
}
