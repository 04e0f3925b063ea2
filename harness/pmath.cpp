// C23: helper arithmetic of the sieve library.
#include "symx.h"
#include <primesieve/pmath.hpp>
typedef unsigned __int128 U;
template <class T> static void sqrtT(U lo, U hi)
{
  U x = sx_u128("x", lo, hi);
  T r = isqrt((T) x);
  sx_observe("r", (uint64_t) r);
  sx_assert(r >= 0, "square root not negative");
  U u = (U) r;
  sx_assert(u < (U) 1 << 32, "square root in range");
  sx_assert(u * u <= x, "r^2 <= x");
  sx_assert(x - u * u <= 2 * u, "x < (r+1)^2");
  sx_cover("end");
}
template <class T> static void pow2T(int part)
{
  U mx = (U) std::numeric_limits<T>::max();
  if (part == 0) { T x = (T) sx_u128("x", 1, mx);
    U p = (U) floorPow2(x);
    sx_observe("p", (uint64_t) p);
    sx_assert(p != 0 && (p & (p - 1)) == 0, "floorPow2 returns a power of two");
    sx_assert(p <= (U) x && (U) x - p < p, "floorPow2 returns the largest power of two not above x"); }
  if (part == 1) { U v = sx_u128("y", 1, mx);
    T x = (T) v;
    U l = (U) ilog2(x);
    sx_observe("l", (uint64_t) l);
    int want = 0;
    for (int i = 1; i < 64; i++) want += (v >= (U) 1 << i);
    sx_assert(l == (U) want, "base-2 logarithm"); }
  if (part == 2) { U v = sx_u128("z", 0, mx);
    bool b = isPow2((T) v);
    bool w = false;
    for (int i = 0; i < 64; i++) w |= v == (U) 1 << i;
    sx_assert(b == w, "power of two test"); }
  sx_cover("end");
}
template <class A, class B> static void ceilT(U ma, U mb)
{
  A a = (A) sx_u128("a", 0, ma);
  B b = (B) sx_u128("b", 1, mb);
  U q = (U) ceilDiv(a, b);
  sx_observe128("q", q);
  sx_assert(q == ((U) a + (U) b - 1) / (U) b, "ceiling division");
  sx_cover("end");
}
template <class A, class B, class C> static void clampT()
{
  uint64_t h = sizeof(A) == 8 ? ~0ull : 0xffffffffu, h2 = sizeof(B) == 8 ? ~0ull : 0xffffffffu, h3 = sizeof(C) == 8 ? ~0ull : 0xffffffffu;
  A lo = (A) sx_u64("lo", 0, h); B x = (B) sx_u64("x", 0, h2); C hi = (C) sx_u64("hi", 0, h3);
  sx_assume((__int128) lo <= (__int128) hi);
  // limits that the value type can hold
  sx_assume((__int128) (B) lo == (__int128) lo && (__int128) (B) hi == (__int128) hi);
  B r = inBetween(lo, x, hi);
  sx_observe("r", (uint64_t) r);
  B w = x < (B) lo ? (B) lo : x > (B) hi ? (B) hi : x;
  sx_assert(r == w, "clamping");
  sx_cover("end");
}
extern "C" void SX_ENTRY()
{
  int t = (int) sx_param(1);
  U m = (U) 1 << 64;
  switch (sx_param(0))
  {
  case 0: switch (t) { case 0: sqrtT<uint64_t>(0, m - 1); break; case 1: sqrtT<uint32_t>(0, 0xffffffffu); break; case 2: sqrtT<int64_t>(0, m / 2 - 1); break; case 3: sqrtT<int>(0, 0x7fffffff); break; } break;
  case 1: // around perfect squares, exact value of the floating point square root
  { uint64_t b = sx_concretize(sx_u64("b", (uint64_t) sx_param(2), (uint64_t) sx_param(2) + (uint64_t) sx_param(3)));
    U c = (U) b * b; U lo = c < 2 ? 0 : c - 2, hi = c + 2; if (hi >= m) hi = m - 1;
    switch (t) { case 0: sqrtT<uint64_t>(lo, hi); break; case 2: if (hi >= m / 2) hi = m / 2 - 1; sqrtT<int64_t>(lo, hi); break; } break; }
  case 2: sqrtT<uint64_t>(m - 1 - (U) sx_param(2), m - 1); break;
  case 3: switch (t) { case 0: pow2T<uint64_t>((int) sx_param(2)); break; case 1: pow2T<uint32_t>((int) sx_param(2)); break; case 2: pow2T<int64_t>((int) sx_param(2)); break; case 3: pow2T<int>((int) sx_param(2)); break; } break;
  case 4: switch (t) { case 0: ceilT<uint64_t, uint64_t>(m / 2, m / 2 - 1); break; case 1: ceilT<int64_t, int64_t>(m / 4, m / 4 - 1); break; case 2: ceilT<uint64_t, int>(m - ((U) 1 << 32), 0x7fffffff); break; case 3: ceilT<int, int>(1 << 30, (1 << 30) - 1); break; } break;
  case 5:
  { uint64_t x = sx_u64("x", 0, ~0ull), y = sx_u64("y", 0, ~0ull);
    uint64_t a = checkedAdd(x, y), s = checkedSub(x, y);
    sx_observe("a", a); sx_observe("s", s);
    U t2 = (U) x + y;
    sx_assert((U) a == (t2 >= m ? m - 1 : t2), "saturating addition");
    sx_assert(s == (x < y ? 0 : x - y), "saturating subtraction");
    sx_cover("end"); break; }
  case 6: switch (t) { case 0: clampT<uint64_t, uint64_t, uint64_t>(); break; case 1: clampT<int, int, int>(); break; case 2: clampT<int, int64_t, int64_t>(); break; case 3: clampT<int64_t, int64_t, int64_t>(); break; case 4: clampT<uint32_t, uint64_t, uint32_t>(); break; } break;
  }
}
