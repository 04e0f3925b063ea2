// C05: S2_hard against the definition of the hard special leaves, for any schedule and either counting method.
#include "symx.h"
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <primesum.hpp>
#include <S2.hpp>
#include <vector>
using namespace primesum;
typedef unsigned __int128 U;
typedef __int128 I;
std::vector<uint64_t> sxu::P;
namespace sxb { int budget = 0; }
static double alpha = 1;
namespace primesum {
int ideal_num_threads(int threads, int64_t, int64_t) { return threads; }
double get_time() { return 0; }
double get_alpha(int128_t, int64_t) { return alpha; } // decides between the two counting methods
bool is_print() { return false; } bool print_result() { return false; } bool print_variables() { return false; }
void print(const std::string&) { } void print(int128_t, int64_t, int) { } void print(int128_t, int64_t, int64_t, int) { }
void print(int128_t, int64_t, int64_t, int64_t, double, int) { } void print(const std::string&, int256_t, double) { } void print_seconds(double) { }
}
extern "C" void SX_ENTRY()
{
  int64_t y = sx_param(0); uint64_t x0 = (uint64_t) sx_param(1), w = (uint64_t) sx_param(2);
  uint64_t x = x0 + sx_u64("offset", 0, w);
  int c = (int) sx_concretize(sx_u64("c", (uint64_t) sx_param(3), (uint64_t) sx_param(4))), threads = (int) sx_concretize(sx_u64("threads", 1, (uint64_t) sx_param(5)));
  sxb::budget = (int) sx_param(6);
  { static const double a[3] = { 1.5, 0.001, 1e6 }; alpha = a[sx_concretize(sx_u64("method", 0, 2))]; }
  int64_t zmax = (int64_t) ((x0 + w) / (uint64_t) y); sxu::dense((uint64_t) zmax + 10);
  int64_t z = (int64_t) (x / (uint64_t) y);
  const std::vector<uint64_t>& P = sxu::P;
  std::vector<int> lpf((size_t) y + 1, 0), mu((size_t) y + 1, 1);
  for (int64_t n = 2; n <= y; n++) { int64_t t = n; int m = 1; for (int64_t p = 2; t > 1; p++) if (t % p == 0) { if (!lpf[(size_t) n]) lpf[(size_t) n] = (int) p; t /= p; m = -m; if (t % p == 0) { m = 0; t = 1; } } mu[(size_t) n] = m; }
  for (int64_t b = 0; b < (int64_t) P.size() && (int64_t) P[b] <= y; b++) // split x by the positions of its leaves
  { int64_t p = (int64_t) P[b]; if (b >= c) for (int64_t m = p + 1; m <= y; m++) if (lpf[(size_t) m] > p && mu[(size_t) m] && m * p > y) sx_concretize(x / (uint64_t) (m * p)); }
  int256_t got = S2_hard((int128_t) x, y, z, c, threads);
  z = (int64_t) sx_concretize((uint64_t) z);
  std::vector<char> left((size_t) z + 1, 1); std::vector<int64_t> pre((size_t) z + 1, 0);
  I want = 0;
  for (size_t b = 0; b < P.size() && (int64_t) P[b] <= y; b++)
  {
    int64_t p = (int64_t) P[b];
    if ((int) b >= c)
    {
      bool have = false;
      for (int64_t m = p + 1; m <= y; m++)
      {
        if (lpf[(size_t) m] <= p || !mu[(size_t) m] || m * p <= y) continue;
        if (p * p > y && (lpf[(size_t) m] != m || m > z / p)) continue;      // above sqrt(y): two primes, x / n >= y
        if (!have) { have = true; for (int64_t k = 1; k <= z; k++) pre[(size_t) k] = pre[(size_t) k - 1] + (left[(size_t) k] ? k : 0); }
        uint64_t xn = sx_concretize(x / (uint64_t) (m * p)); sx_assert((int64_t) xn <= z, "leaf inside the sieve");
        want -= (I) mu[(size_t) m] * (m * p) * pre[xn];
      }
    }
    for (int64_t k = p; k <= z; k += p) left[(size_t) k] = 0;
  }
  sx_assert(got == int256_t(want), "sum over the hard special leaves");
  sx_cover(want != 0 ? "sum" : "empty");
}
