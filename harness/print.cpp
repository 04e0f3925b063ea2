// C08: decimal text of 128-bit and 256-bit values.
#include "symx.h"
#include "capture.h"
#include <int128_t.hpp>
#include <int256_t.hpp>
using namespace primesum;
typedef unsigned __int128 U;
struct W { U lo, hi; };
static W mul10(const W& a, unsigned d)
{
  const U m = ~0ull;
  U x = (a.lo & m) * 10 + d, y = (a.lo >> 64) * 10 + (x >> 64);
  W r; r.lo = (x & m) | (y << 64); r.hi = a.hi * 10 + (y >> 64);
  return r;
}
// checks that the captured text is the canonical decimal form of (neg, v)
static void checkText(bool neg, W v, unsigned maxlen)
{
  unsigned i = 0, n = cap::len;
  sx_observe("len", n);
  sx_assert(n > 0 && n <= maxlen, "text length");
  if (neg) { sx_assert(cap::buf[0] == '-', "sign of a negative value"); i = 1; }
  sx_assert(i < n, "digits present");
  sx_assert(n - i == 1 || cap::buf[i] != '0', "no leading zero");
  if (v.hi == 0)
  {
    // the digit at distance k from the end is the k-th decimal digit, and nothing is left above the first
    U p = 1; unsigned k = 0;
    for (unsigned j = n; j-- > i; k++)
    {
      unsigned char c = (unsigned char) cap::buf[j];
      sx_observe("c", c);
      sx_assert(k < 39 && c == '0' + (unsigned char) (v.lo / p % 10), "decimal digit");
      if (k < 38) p *= 10;
    }
    sx_assert(k == 39 || v.lo < p || (k == 1 && v.lo < 10), "no digit is missing");
  }
  else
  {
    W r{ 0, 0 };
    for (; i < n; i++)
    {
      unsigned char c = (unsigned char) cap::buf[i];
      sx_observe("c", c);
      sx_assert(c >= '0' && c <= '9', "decimal digits only");
      r = mul10(r, c - '0');
    }
    sx_assert(r.lo == v.lo && r.hi == v.hi, "text has the value that was printed");
  }
  sx_cover("text");
}
static W p2(int k) { return k < 0 ? W{ 0, 0 } : k < 128 ? W{ (U) 1 << k, 0 } : W{ 0, (U) 1 << (k - 128) }; }
static W add(const W& a, const W& b) { W r; r.lo = a.lo + b.lo; r.hi = a.hi + b.hi + (r.lo < a.lo); return r; }

extern "C" void SX_ENTRY()
{
  std::ostream& os = cap::stream();
  U top = (U) 1 << 127;
  switch (sx_param(0))
  {
  case 0: { U v = sx_u128("v", 0, ~(U) 0); os << (uint128_t) v; checkText(false, W{ v, 0 }, 39); break; }
  case 1: { U v = sx_u128("v", 0, top - 1); os << (int128_t) v; checkText(false, W{ v, 0 }, 39); break; }
  case 2: { U v = sx_u128("v", 1, top); os << (int128_t) (0 - v); checkText(true, W{ v, 0 }, 40); break; }
  case 3: { U v = sx_u128("v", 0, ~(U) 0); os << int256_t(v); checkText(false, W{ v, 0 }, 78); break; }
  case 4: { U v = sx_u128("v", 1, ~(U) 0); int256_t x(v); os << -x; checkText(true, W{ v, 0 }, 79); break; }
  case 5: // wide: 2^p2 + 2^p3 + p4 + (0..p5), sign p1
  { W v = add(add(p2(sx_param(2)), p2(sx_param(3))), W{ (U) (__int128) sx_param(4), sx_param(4) < 0 ? ~(U) 0 : 0 });
    v = add(v, W{ sx_u128("s", 0, (U) sx_param(5)), 0 });
    int256_t x = (int256_t(v.hi) << 128) | int256_t(v.lo);
    if (sx_param(1)) x = -x;
    os << x; checkText(sx_param(1) != 0, v, 79); break; }
  case 6: // 10^p2 + p3 + (0..p4)
  { W v{ 1, 0 }; for (int i = 0; i < sx_param(2); i++) v = mul10(v, 0);
    v = add(v, W{ (U) (__int128) sx_param(3), sx_param(3) < 0 ? ~(U) 0 : 0 });
    v = add(v, W{ sx_u128("s", 0, (U) sx_param(4)), 0 });
    int256_t x = (int256_t(v.hi) << 128) | int256_t(v.lo);
    if (sx_param(1)) x = -x;
    os << x; checkText(sx_param(1) != 0, v, 79); break; }
  }
}
