// C09: integer roots, ceiling division, powers of two, clamping.
#include "symx.h"
#include <int128_t.hpp>
#include <isqrt.hpp>
#include <imath.hpp>
using namespace primesum;
typedef unsigned __int128 U;

static U pw(U b, int n) { U r = 1; while (n-- > 0) r *= b; return r; }
// x within [b^n + p - w1, b^n + p + w2]
static U window(int n, U b, uint64_t w1, uint64_t w2)
{
  U c = pw(b, n);
  return sx_u128("x", c < w1 ? 0 : c - w1, c + w2);
}
// exact root check for a candidate r: r^n <= x < (r+1)^n without overflow
static bool leq(U r, int n, U x) { U q = x; for (int i = 0; i < n; i++) { if (r == 0) return true; q /= r; } return q >= 1; } // r^n <= x
template <class T> static void checkSqrt(U x)
{
  T r = isqrt((T) x);
  sx_observe128("r", (U) r);
  sx_assert(r >= 0, "square root not negative");
  U u = (U) r;
  sx_assert(u < ((U) 1 << 64), "square root in range");
  sx_assert(u * u <= x, "r^2 <= x");
  sx_assert(x - u * u <= 2 * u, "x < (r+1)^2");
  sx_cover("root");
}
template <int N, class T> static void checkRoot(U x)
{
  T r = iroot<N>((T) x);
  sx_observe128("r", (U) r);
  sx_assert(r >= 0 && (U) r < (U) 1 << 64, "root in range");
  U u = (U) r;
  if (!sx_is_symbolic((uint64_t) u)) { U c = (U) (uint64_t) u; 
    U lo = pw(c, N); sx_assert(lo <= x, "r^n <= x"); sx_assert(x < pw(c + 1, N) || !leq(c + 1, N, ~(U) 0), "x < (r+1)^n"); }
  else { sx_assert(pw(u, N) <= x, "r^n <= x"); sx_assert(x < pw(u + 1, N), "x < (r+1)^n"); }
  sx_cover("root");
}
template <class T> static void sqrtJob(int mode)
{
  U mx = (U) prt::numeric_limits<T>::max(), x;
  U b = (((U) (uint64_t) sx_param(2)) << (int) sx_param(3)) + (U) (__int128) sx_param(4);
  if (mode == 0) x = window(2, b, sx_param(5), sx_param(6));
  else if (mode == 1) { x = sx_u128("x", 0, sx_param(2) ? ((U) 1 << (int) sx_param(2)) - 1 : mx); }
  else if (mode == 3) { U c = sx_concretize(sx_u64("b", (uint64_t) b, (uint64_t) b + (uint64_t) sx_param(5))); c *= c; x = sx_u128("x", c < 2 ? 0 : c - 2, c + 2); }
  else { uint64_t w = sx_param(5); x = sx_u128("x", mx - w, mx); }
  sx_assume(x <= mx);
  checkSqrt<T>(x);
}
template <int N, class T> static void rootJob(int mode)
{
  U mx = (U) prt::numeric_limits<T>::max(), x;
  U b = (((U) (uint64_t) sx_param(3)) << (int) sx_param(4)) + (U) (__int128) sx_param(5);
  if (mode == 0) x = window(N, b, sx_param(6), sx_param(7));
  else if (mode == 2) { uint64_t w = sx_param(6); x = sx_u128("x", mx - w, mx); }
  else if (mode == 3) { U c = sx_concretize(sx_u64("b", (uint64_t) b, (uint64_t) b + (uint64_t) sx_param(6))); c = pw(c, N); x = sx_u128("x", c < 2 ? 0 : c - 2, c + 2); }
  else { U p = pw(b, N), q = pw(b + sx_param(6), N); x = sx_u128("x", p, q); }
  sx_assume(x <= mx);
  checkRoot<N, T>(x);
}
template <class A, class B> static void ceilJob(U ma, U mb)
{
  A a = (A) sx_u128("a", 0, ma);
  B b = (B) sx_u128("b", 1, mb);
  A q = ceil_div(a, b);
  // q is the smallest integer with q * b >= a
  U n = (U) a, d = (U) b;
  U w = n == 0 ? 0 : (n - 1) / d + 1;
  sx_observe128("q", (U) q);
  if (n == 0) sx_assert((U) q == 0, "ceiling division of zero");
  else sx_assert((U) q == (n + d - 1) / d, "ceiling division");
  (void) w;
  sx_cover("end");
}
template <class T> static void pow2Job()
{
  U mx = (U) prt::numeric_limits<T>::max();
  int bits = (int) (sizeof(T) * 8) - (((T) -1 < 0) ? 1 : 0);
  U half = (U) 1 << (bits - 1);
  { T x = (T) sx_u128("x", 0, half);
    U p = (U) next_power_of_2(x);
    sx_observe128("p", p);
    sx_assert(p != 0 && (p & (p - 1)) == 0, "next power of two is a power of two");
    sx_assert(p >= (U) x, "next power of two not below the value");
    sx_assert(p == 1 || p / 2 < (U) x, "next power of two is the smallest"); }
  { T x = (T) sx_u128("y", 1, mx);
    U p = (U) prev_power_of_2(x);
    sx_observe128("p", p);
    sx_assert(p != 0 && (p & (p - 1)) == 0, "previous power of two is a power of two");
    sx_assert(p <= (U) x, "previous power of two not above the value");
    sx_assert((U) x - p < p, "previous power of two is the largest"); }
  sx_cover("end");
}

extern "C" void SX_ENTRY()
{
  int t = (int) sx_param(1);
  switch (sx_param(0))
  {
  case 0: case 1: case 2: case 3:
    switch (t) { case 0: sqrtJob<int64_t>(sx_param(0)); break; case 1: sqrtJob<uint64_t>(sx_param(0)); break; case 2: sqrtJob<int128_t>(sx_param(0)); break;
      case 3: sqrtJob<uint128_t>(sx_param(0)); break; case 4: sqrtJob<int32_t>(sx_param(0)); break; case 5: sqrtJob<uint32_t>(sx_param(0)); break; }
    break;
  case 10: case 11: case 12: case 13:
  { int m = (int) sx_param(0) - 10;
    switch (t * 10 + sx_param(2)) {
    case 2: rootJob<2, int64_t>(m); break; case 3: rootJob<3, int64_t>(m); break; case 4: rootJob<4, int64_t>(m); break; case 6: rootJob<6, int64_t>(m); break;
    case 22: rootJob<2, int128_t>(m); break; case 23: rootJob<3, int128_t>(m); break; case 24: rootJob<4, int128_t>(m); break; case 26: rootJob<6, int128_t>(m); break; }
    break; }
  case 20:
    switch (t) {
    case 0: ceilJob<int64_t, int64_t>((U) 1 << 62, ((U) 1 << 62) - 1); break;
    case 1: ceilJob<int64_t, int>((U) INT64_MAX - INT32_MAX, INT32_MAX); break;
    case 2: ceilJob<uint64_t, uint64_t>((U) 1 << 63, ((U) 1 << 63) - 1); break;
    case 3: ceilJob<int128_t, int64_t>((U) 1 << 126, INT64_MAX); break;
    case 4: ceilJob<int32_t, int32_t>((U) 1 << 30, ((U) 1 << 30) - 1); break;
    case 5: ceilJob<uint64_t, int64_t>((U) 1 << 63, (U) 1 << 62); break; }
    break;
  case 21: switch (t) { case 0: pow2Job<int64_t>(); break; case 1: pow2Job<uint64_t>(); break; case 2: pow2Job<int32_t>(); break; case 3: pow2Job<uint32_t>(); break; } break;
  case 22: // clamping, mixed types
  { int64_t x = (int64_t) sx_u64("x", 0, ~0ull), lo = (int64_t) sx_u64("lo", 0, ~0ull), hi = (int64_t) sx_u64("hi", 0, ~0ull);
    sx_assume(lo <= hi);
    int64_t r = in_between(lo, x, hi);
    sx_assert(r >= lo && r <= hi && (r == x || (r == lo && x < lo) || (r == hi && x > hi)), "clamp to [lo, hi]");
    int64_t r1 = in_between(1, x, hi); // int, int64, int64
    if (hi >= 1) sx_assert(r1 >= 1 && r1 <= hi && (r1 == x || (r1 == 1 && x < 1) || (r1 == hi && x > hi)), "clamp to [1, hi]");
    U big = sx_u128("big", 0, ((U) 1 << 127) - 1);
    int128_t y = (int128_t) big;
    int128_t r2 = in_between(lo, y, hi);
    sx_assert(r2 >= lo && r2 <= hi && (r2 == y || (r2 == lo && y < lo) || (r2 == hi && y > hi)), "clamp 128-bit value");
    int s = (int) (int32_t) (uint32_t) x; // int value with 64-bit limits
    int32_t r3 = in_between(1, s, 1000);
    sx_assert(r3 == (s < 1 ? 1 : s > 1000 ? 1000 : s), "clamp int");
    sx_cover("end"); break; }
  case 23: // powers
  { int n = (int) sx_concretize(sx_u64("n", 0, (uint64_t) sx_param(3)));
    int64_t x = (int64_t) sx_concretize(sx_u64("x", (uint64_t) t, (uint64_t) sx_param(2)));
    // compare where the power is representable
    U r = 1; bool ok = true;
    for (int i = 0; i < n; i++) { if (x != 0 && r > (U) INT64_MAX / (U) x) { ok = false; break; } r *= (U) x; }
    if (ok) { sx_assert((U) ipow(x, n) == r, "integer power"); sx_assert((U) ipow((int128_t) x, n) == r, "integer power, 128 bits"); if (r <= INT32_MAX) sx_assert((U) ipow((int) x, n) == r, "integer power, 32 bits"); sx_cover("end"); }
    sx_assert((U) isquare(x) == (U) x * (U) x, "square"); break; }
  case 24: // binary search for the number of primes not above x in a 1-based list
  { std::vector<int64_t> primes{ 0, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43 };
    std::vector<int32_t> primes32(primes.begin(), primes.end());
    int64_t x = (int64_t) sx_u64("x", 0, 43);
    int64_t n = 0;
    for (size_t i = 1; i < primes.size(); i++) n += primes[i] <= x;
    sx_assert(pi_bsearch(primes, x) == n, "number of primes <= x");
    sx_assert(pi_bsearch(primes32, x) == n, "number of primes <= x, 32-bit list");
    sx_cover("end"); break; }
  }
}
