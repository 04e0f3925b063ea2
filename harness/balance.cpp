// C14: S2LoadBalancer after any history of thread timings; the caller's loop is the one of S2_hard / pi_lmo_parallel1.
#include "symx.h"
#include <S2LoadBalancer.hpp>
#include <primesum-internal.hpp>
#include <imath.hpp>
#include <aligned_vector.hpp>
#include <algorithm>
using namespace primesum;
namespace primesum { double get_alpha(int128_t x, int64_t y) { return (double) y / (double) iroot<3>(x); } }
static double duration(int mode)
{
  if (mode == 0) return sx_concretize(sx_u64("measurable", 0, 1)) ? (double) sx_u64("microseconds", 1, 1000000000000ull) / 1e6 : 0;   // nothing, or anything from 1 us to 11 days
  static const double t[6] = { 0, 1e-6, 0.02, 0.4, 5, 4000 };                          // some exact values
  return t[sx_concretize(sx_u64("time", 0, 5))];
}
static bool pow2(int64_t n) { return n > 0 && (n & (n - 1)) == 0; }
extern "C" void SX_ENTRY()
{
  int mode = (int) sx_param(0), threads0 = (int) sx_param(1), rounds = (int) sx_param(2);
  unsigned __int128 x0 = sx_big((uint64_t) sx_param(4), (uint64_t) sx_param(3)); uint64_t w = (uint64_t) sx_param(5); int64_t y = sx_param(6);
  int128_t x = (int128_t) (x0 + sx_u64("offset", 0, w));
  int64_t z = (int64_t) (x / y), limit = z + 1;
  if (sx_param(7)) { z = limit; }                           // the LMO variant passes its limit
  int64_t low = 1 + (int64_t) sx_u64("low", 0, (uint64_t) ((int128_t) x0 / y - 1));
  int threads = threads0;
  S2LoadBalancer lb(x, y, z, threads);
  int64_t size = lb.get_min_segment_size(), spt = 1, zmax = (int64_t) ((x0 + w) / (uint64_t) y) + 1;
  sx_assert(pow2(size) && size >= 512 && (size == 512 || size / 2 <= (int64_t) isqrt(zmax)), "initial segment size");
  if (size < (1ll << 20)) { uint64_t more = sx_concretize(sx_u64("bigger", 0, 3)) * (uint64_t) sx_param(8); size <<= more; }   // any size reached earlier
  int64_t smax = 2 * sx_param(9) - 1; spt = (int64_t) sx_u64("segments", (uint64_t) sx_param(9), (uint64_t) smax);
  for (int r = 0; r < rounds; r++)
  {
    if (!(low < limit)) break;
    int64_t segments = ceil_div(limit - low, size);
    threads = in_between(1, threads, segments); threads = (int) sx_concretize((uint64_t) threads);
    spt = in_between(1, spt, ceil_div(segments, threads));
    int64_t next = low + spt * threads * size;
    sx_assert(next > low, "the range advances");
    aligned_vector<double> timings(threads); for (int i = 0; i < threads; i++) timings[i] = duration(mode);
    int64_t old = size;
    lb.update(next, threads, &size, &spt, timings);
    int64_t m = lb.get_min_segment_size();
    sx_assert(pow2(m) && m >= 512, "minimum segment size");
    sx_assert(pow2(size) && size >= m, "segment size is a power of two not below the minimum");
    sx_assert(size <= 2 * old || size == m, "segment size grows by at most a factor of 2");
    sx_assert(m == 512 || m / 2 <= (int64_t) isqrt(zmax), "minimum segment size limited by the root of the interval");
    sx_assert(spt >= 1 && spt <= 2 * smax, "segments per thread stay positive and at most double");
    smax *= 2; low = next;
  }
  sx_cover("end");
}
