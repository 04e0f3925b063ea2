// C26: whole algorithms, from x to the sum of the primes <= x, with any tuning factor, number of threads and schedule.
#include "symx.h"
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <primesum.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <vector>
#include <cmath>
using namespace primesum;
typedef unsigned __int128 U;
typedef __int128 I;
namespace sxu { std::vector<uint64_t> P; }
namespace sxb { int budget; }
namespace sxo { int max_threads = 64; }
namespace primesum {
bool is_print() { return false; } bool print_result() { return false; } bool print_variables() { return false; }
void print(const std::string&) { } void print(int128_t, int64_t, int) { } void print(int128_t, int64_t, int64_t, int) { }
void print(int128_t, int64_t, int64_t, int64_t, double, int) { } void print(const std::string&, int256_t, double) { } void print_seconds(double) { }
}
extern "C" long sx_clock() asm("_ZNSt6chrono3_V212steady_clock3nowEv");
extern "C" long sx_clock() { return 1000; }
extern "C" void SX_ENTRY()
{
  int fn = (int) sx_param(0); int64_t x0 = sx_param(1), w = sx_param(2); sxb::budget = (int) sx_param(4);
  sxu::dense((uint64_t) (x0 + w) + 200);
  int64_t x = x0 + (int64_t) sx_u64("offset", 0, (uint64_t) w); int t = (int) sx_concretize(sx_u64("threads", 1, (uint64_t) sx_param(3)));
  static const double alphas[] = { -1, 1, 1.3, 1.7, 2.2, 3, 1000 };
  double alpha;
  if (sx_param(5) < 100) alpha = alphas[sx_concretize(sx_u64("alpha", 0, (uint64_t) sx_param(5)))];
  else { uint64_t y = (uint64_t) sx_param(5) - 100 + sx_concretize(sx_u64("y", 0, (uint64_t) sx_param(6))); alpha = ((double) y + 0.5) / std::cbrt((double) x0); } // consecutive y
  if (alpha > 0) set_alpha(alpha);
  int256_t r = 0;
  switch (fn)
  {
    case 0: r = pi_deleglise_rivat_parallel1(x, t); break;
    case 1: r = pi_lmo1(x); break; case 2: r = pi_lmo2(x); break; case 3: r = pi_lmo3(x); break; case 4: r = pi_lmo4(x); break; case 5: r = pi_lmo5(x); break;
    case 6: r = pi_lmo_parallel1(x, t); break;
    case 7: r = pi(x, t); break; case 8: set_num_threads(t); r = pi((int128_t) x); break;
  }
  I want = 0; for (uint64_t p : sxu::P) if ((int64_t) p <= x) want += (I) p;
  sx_assert(r == int256_t(want), "sum of the primes <= x"); sx_cover("end");
}
