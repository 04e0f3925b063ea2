// C07: int256_t arithmetic against four-limb reference arithmetic.
#include "symx.h"
#include <int128_t.hpp>
#include <int256_t.hpp>
using namespace primesum;
typedef unsigned __int128 U;
struct W { U lo, hi; };   // reference value, modulo 2^256

static int256_t make(U lo, U hi)
{
  // built through the public operators: hi * 2^128 + lo
  int256_t h((U) hi), l((U) lo);
  return (h << 128) | l;
}
static W get(const int256_t& v)
{
  return W{ (U) v, (U) (v >> 128) };
}
static bool neg(const W& a) { return (a.hi >> 127) != 0; }
static W radd(const W& a, const W& b) { W r; r.lo = a.lo + b.lo; r.hi = a.hi + b.hi + (r.lo < a.lo ? 1 : 0); return r; }
static W rneg(const W& a) { W r; r.lo = -a.lo; r.hi = -a.hi - (a.lo != 0 ? 1 : 0); return r; }
static W rsub(const W& a, const W& b) { W r; r.lo = a.lo - b.lo; r.hi = a.hi - b.hi - (a.lo < b.lo ? 1 : 0); return r; }
static W rmul(const W& a, const W& b)
{
  const U m = ~0ull;
  U x = (a.lo & m) * (b.lo & m), y = (a.lo & m) * (b.lo >> 64), z = (a.lo >> 64) * (b.lo & m), w = (a.lo >> 64) * (b.lo >> 64);
  U t = (x >> 64) + (y & m) + (z & m);
  W r;
  r.lo = (x & m) + (t << 64);
  r.hi = w + (y >> 64) + (z >> 64) + (t >> 64) + a.lo * b.hi + a.hi * b.lo;
  return r;
}
static bool lt(const W& a, const W& b)
{
  if (neg(a) != neg(b)) return neg(a);
  return a.hi < b.hi || (a.hi == b.hi && a.lo < b.lo);
}
static void same(const int256_t& v, const W& r, const char* msg)
{
  W g = get(v);
  sx_assert(g.lo == r.lo, msg);
  sx_assert(g.hi == r.hi, msg);
}
static U full(const char* n) { return sx_u128(n, 0, ~(U) 0); }

static W p2(int k) { return k < 0 ? W{ 0, 0 } : k < 128 ? W{ (U) 1 << k, 0 } : W{ 0, (U) 1 << (k - 128) }; }
static bool ult(const W& a, const W& b) { return a.hi < b.hi || (a.hi == b.hi && a.lo < b.lo); }
// |n| = q * |d| + r with 0 <= r < |d|, signs by truncation
static void checkDiv(const W& n, const W& d, bool nn, bool nd)
{
  int256_t N = make(n.lo, n.hi), D = make(d.lo, d.hi);
  if (nn) N = -N;
  if (nd) D = -D;
  W q = get(N / D), r = get(N % D);
  sx_observe128("q", q.lo); sx_observe128("r", r.lo);
  // back to magnitudes: the remainder takes the sign of the dividend, the quotient of both
  if (nn) r = rneg(r);
  if (nn != nd) q = rneg(q);
  sx_assert(ult(r, d), "remainder smaller than the divisor");
  W t = radd(rmul(q, d), r);
  sx_assert(t.lo == n.lo && t.hi == n.hi, "quotient * divisor + remainder == dividend");
  sx_assert(!ult(n, q), "quotient not larger than the dividend");
}

extern "C" void SX_ENTRY()
{
  W a, b;
  if (sx_param(0) >= 10)
  {
    bool nn = sx_param(1) & 1, nd = sx_param(1) & 2;
    switch (sx_param(0))
    {
    case 10: // both below 2^128
      a.lo = full("n"); a.hi = 0; b.lo = sx_u128("d", 1, ~(U) 0); b.hi = 0;
      { int256_t N = make(a.lo, 0), D = make(b.lo, 0);
        if (nn) N = -N;
        if (nd) D = -D;
        W q, r;
        if (b.lo == 1) { q = a; r = W{ 0, 0 }; }
        else if (a.lo < b.lo) { q = W{ 0, 0 }; r = a; }
        else { q = W{ a.lo / b.lo, 0 }; r = W{ a.lo % b.lo, 0 }; }
        if (nn != nd) q = rneg(q);
        if (nn) r = rneg(r);
        same(N / D, q, "quotient"); same(N % D, r, "remainder");
        int256_t x = N; x /= D; same(x, q, "/="); x = N; x %= D; same(x, r, "%="); }
      sx_cover("end"); break;
    case 11: // dividend not above the divisor, or divisor 1
      a.lo = full("nlo"); a.hi = sx_u128("nhi", 0, ((U) 1 << 126) - 1);
      b.lo = full("dlo"); b.hi = sx_u128("dhi", 0, ((U) 1 << 126) - 1);
      if (sx_param(2) == 0) sx_assume(!ult(b, a) && (b.lo != 0 || b.hi != 0)); else { b.lo = 1; b.hi = 0; }
      checkDiv(a, b, nn, nd); sx_cover("end"); break;
    case 12: // concrete dividend 2^p2 + 2^p3 + p4, divisors from 2^p5 + p6 to 2^p5 + p6 + p7
    { a = radd(radd(p2(sx_param(2)), p2(sx_param(3))), W{ (U) (__int128) sx_param(4), sx_param(4) < 0 ? ~(U) 0 : 0 });
      b = radd(p2(sx_param(5)), W{ (U) (__int128) sx_param(6), sx_param(6) < 0 ? ~(U) 0 : 0 });
      b = radd(b, W{ sx_u128("s", 0, (U) sx_param(7)), 0 });
      checkDiv(a, b, nn, nd); sx_cover("end"); break; }
    case 13: // concrete divisor 2^p5 + p6, dividends from 2^p2 + 2^p3 + p4 to ... + p7
    { a = radd(radd(p2(sx_param(2)), p2(sx_param(3))), W{ (U) (__int128) sx_param(4), sx_param(4) < 0 ? ~(U) 0 : 0 });
      a = radd(a, W{ sx_u128("s", 0, (U) sx_param(7)), 0 });
      b = radd(p2(sx_param(5)), W{ (U) (__int128) sx_param(6), sx_param(6) < 0 ? ~(U) 0 : 0 });
      checkDiv(a, b, nn, nd); sx_cover("end"); break; }
    }
    return;
  }
  a.lo = full("alo"); a.hi = full("ahi");
  int256_t A = make(a.lo, a.hi);
  switch (sx_param(0))
  {
  case 0: // representation
    same(A, a, "construction from two halves");
    same(+A, a, "unary plus");
    same(~A, W{ ~a.lo, ~a.hi }, "complement");
    same(-A, rneg(a), "negation");
    { int256_t x = A; same(++x, radd(a, W{1, 0}), "pre-increment"); same(x, radd(a, W{1, 0}), "pre-increment value"); }
    { int256_t x = A; same(--x, rsub(a, W{1, 0}), "pre-decrement"); same(x, rsub(a, W{1, 0}), "pre-decrement value"); }
    { int256_t x = A; same(x++, a, "post-increment"); same(x, radd(a, W{1, 0}), "post-increment value"); }
    { int256_t x = A; same(x--, a, "post-decrement"); same(x, rsub(a, W{1, 0}), "post-decrement value"); }
    sx_cover("end");
    break;
  case 1: // add, sub
    b.lo = full("blo"); b.hi = full("bhi");
    { int256_t B = make(b.lo, b.hi);
      same(A + B, radd(a, b), "addition");
      same(A - B, rsub(a, b), "subtraction");
      int256_t x = A; x += B; same(x, radd(a, b), "+=");
      x = A; x -= B; same(x, rsub(a, b), "-="); }
    sx_cover("end");
    break;
  case 2: // comparisons
    b.lo = full("blo"); b.hi = full("bhi");
    { int256_t B = make(b.lo, b.hi);
      bool e = a.lo == b.lo && a.hi == b.hi, l = lt(a, b), g = lt(b, a);
      sx_assert((A == B) == e, "=="); sx_assert((A != B) == !e, "!=");
      sx_assert((A < B) == l, "<"); sx_assert((A > B) == g, ">");
      sx_assert((A <= B) == !g, "<="); sx_assert((A >= B) == !l, ">=");
      if (e) sx_cover("equal"); else if (l) sx_cover("less"); else sx_cover("greater"); }
    break;
  case 3: // bitwise
    b.lo = full("blo"); b.hi = full("bhi");
    { int256_t B = make(b.lo, b.hi);
      same(A & B, W{ a.lo & b.lo, a.hi & b.hi }, "and");
      same(A | B, W{ a.lo | b.lo, a.hi | b.hi }, "or");
      same(A ^ B, W{ a.lo ^ b.lo, a.hi ^ b.hi }, "xor");
      int256_t x = A; x &= B; same(x, W{ a.lo & b.lo, a.hi & b.hi }, "&=");
      x = A; x |= B; same(x, W{ a.lo | b.lo, a.hi | b.hi }, "|=");
      x = A; x ^= B; same(x, W{ a.lo ^ b.lo, a.hi ^ b.hi }, "^="); }
    sx_cover("end");
    break;
  case 4: // multiplication
    b.lo = full("blo"); b.hi = full("bhi");
    { int256_t B = make(b.lo, b.hi);
      W r = rmul(a, b);
      same(A * B, r, "multiplication");
      int256_t x = A; x *= B; same(x, r, "*="); }
    sx_cover("end");
    break;
  case 5: // shifts of non-negative values
    { sx_assume(!neg(a));
      int n = (int) sx_concretize(sx_u64("n", sx_param(1), sx_param(2)));
      W l, r;
      if (n == 0) l = r = a;
      else if (n < 128) { l.lo = a.lo << n; l.hi = (a.hi << n) | (a.lo >> (128 - n)); r.lo = (a.lo >> n) | (a.hi << (128 - n)); r.hi = a.hi >> n; }
      else if (n == 128) { l.lo = 0; l.hi = a.lo; r.lo = a.hi; r.hi = 0; }
      else { l.lo = 0; l.hi = a.lo << (n - 128); r.lo = a.hi >> (n - 128); r.hi = 0; }
      same(A << n, l, "left shift"); same(A >> n, r, "right shift");
      int256_t x = A; x <<= n; same(x, l, "<<="); x = A; x >>= n; same(x, r, ">>="); }
    sx_cover("end");
    break;
  case 6: // conversions
    { U m = ~(U) 0;
      sx_assert((U) A == a.lo, "to uint128");
      sx_assert((uint64_t) A == (uint64_t) a.lo, "to uint64");
      sx_assert((uint32_t) A == (uint32_t) a.lo, "to uint32");
      sx_assert((uint16_t) A == (uint16_t) a.lo, "to uint16");
      sx_assert((uint8_t) A == (uint8_t) a.lo, "to uint8");
      sx_assert((U) (__int128) A == a.lo, "to int128");
      sx_assert((uint64_t) (int64_t) A == (uint64_t) a.lo, "to int64");
      sx_assert((uint32_t) (int32_t) A == (uint32_t) a.lo, "to int32");
      sx_assert((uint16_t) (int16_t) A == (uint16_t) a.lo, "to int16");
      sx_assert((uint8_t) (int8_t) A == (uint8_t) a.lo, "to int8");
      __int128 s = (__int128) a.lo;
      same(int256_t(s), W{ a.lo, s < 0 ? m : 0 }, "from int128");
      same(int256_t(a.lo), W{ a.lo, 0 }, "from uint128");
      int64_t q = (int64_t) a.lo; same(int256_t(q), W{ (U) (__int128) q, q < 0 ? m : 0 }, "from int64");
      uint64_t uq = (uint64_t) a.lo; same(int256_t(uq), W{ uq, 0 }, "from uint64");
      int32_t d = (int32_t) a.lo; same(int256_t(d), W{ (U) (__int128) d, d < 0 ? m : 0 }, "from int32");
      uint32_t ud = (uint32_t) a.lo; same(int256_t(ud), W{ ud, 0 }, "from uint32");
      // mixed operands
      W bq{ (U) (__int128) q, q < 0 ? m : 0 };
      same(A + q, radd(a, bq), "256 + 64 bit"); same(A - q, rsub(a, bq), "256 - 64 bit");
      same(A & q, W{ a.lo & bq.lo, a.hi & bq.hi }, "256 & 64 bit");
      sx_assert((A == q) == (a.lo == bq.lo && a.hi == bq.hi), "256 == 64 bit");
      sx_assert((A < q) == lt(a, bq), "256 < 64 bit"); sx_assert((A > q) == lt(bq, a), "256 > 64 bit"); }
    sx_cover("end");
    break;
  }
}
