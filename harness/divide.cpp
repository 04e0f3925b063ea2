// C10: fast division helpers.
#include "symx.h"
#include <fast_div.hpp>
#include <libdivide.h>
using namespace primesum;
typedef unsigned __int128 U;
template <class X, class Y> static void fd(int d)
{
  U mx = (U) prt::numeric_limits<X>::max(), my = (U) prt::numeric_limits<Y>::max();
  U x = sx_u128("x", 0, mx), y = sx_u128("y", 1, my);
  X q = fast_div((X) x, (Y) y);
  sx_observe128("q", (U) q);
  sx_assert((U) q == x / y, "quotient");
  sx_cover("end");
}
template <class D> static void lib(uint64_t d)
{
  D div(d);
  uint64_t n = sx_u64("n", 0, ~0ull);
  uint64_t q = n / div;
  sx_observe("q", q);
  // floor(n / d)
  sx_assert((U) q * d <= n && (U) n < ((U) q + 1) * d, "quotient of the precomputed divider");
  sx_cover("end");
}
extern "C" void SX_ENTRY()
{
  int t = (int) sx_param(1);
  switch (sx_param(0))
  {
  case 0:
    switch (t)
    {
    case 0: fd<int128_t, int64_t>(0); break; case 1: fd<int128_t, int32_t>(0); break; case 2: fd<uint128_t, uint64_t>(0); break; case 3: fd<uint128_t, uint32_t>(0); break;
    case 4: fd<int64_t, int32_t>(0); break; case 5: fd<uint64_t, uint32_t>(0); break; case 6: fd<int64_t, int64_t>(0); break; case 7: fd<uint64_t, uint64_t>(0); break;
    case 8: fd<int128_t, int128_t>(0); break; case 9: fd<uint128_t, uint128_t>(0); break; case 10: fd<int128_t, uint32_t>(0); break; case 11: fd<int128_t, uint64_t>(0); break;
    case 12: fd<int32_t, int32_t>(0); break; case 13: fd<uint128_t, int64_t>(0); break; case 14: fd<uint64_t, int32_t>(0); break; case 15: fd<int64_t, uint32_t>(0); break;
    } break;
  case 1: // divisors 2^p1 + p2 .. 2^p1 + p2 + p3, the branch-free divider of 64-bit values
  { uint64_t b = (t < 0 ? 0 : 1ull << t) + (uint64_t) sx_param(2);
    uint64_t d = sx_concretize(sx_u64("d", b, b + (uint64_t) sx_param(3)));
    lib<libdivide::branchfree_divider<uint64_t>>(d); break; }
  }
}
