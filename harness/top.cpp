// C01: what pi_deleglise_rivat_parallel1 asks of its parts and how it assembles their values.  C14: thread and precision clamps.
#include "symx.h"
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <primesum.hpp>
#include <S1.hpp>
#include <S2.hpp>
#include <int256_t.hpp>
using namespace primesum;
typedef unsigned __int128 U;
typedef __int128 I;
namespace sxt { uint64_t start, stop, token; int threads, calls; }
namespace sxo { int max_threads = 1; }
static I X; static int64_t Y, C; static int T, calls[5];
static U part[5];
static const int64_t prm[8] = { 0, 2, 3, 5, 7, 11, 13, 17 };
static int256_t value(int i) { return int256_t((I) part[i]); }
static void parameters(I x, int64_t y, int t)
{
  sx_assert(x == X && t == T, "x and the number of threads are passed on");
  if (!Y) { Y = y; sx_assert(y >= 1 && (I) y * y <= x && (y >= 1ll << 43 || (I) (y + 1) * (y + 1) > x / (y + 1)), "y lies between the cube root and the square root of x"); sxt::stop = (uint64_t) y; }
  sx_assert(y == Y, "one y for all parts");
}
static void parameters(I x, int64_t y, int64_t z, int64_t c, int t)
{
  parameters(x, y, t);
  sx_assert(z == (int64_t) (x / Y), "z = x / y");
  sx_assert(z < (1ll << 61) + (1ll << 40), "z stays in the supported range");
  if (C < 0) { C = c; sx_assert(c >= 0 && c <= 7 && prm[c & 7] <= y && (c >= 4 || prm[c + 1] > y), "at most 7 prefix primes, none above y, all of 2, 3, 5, 7 up to y"); }
  sx_assert(c == C, "one prefix for all parts");
}
namespace primesum {
int256_t P2(int128_t x, int64_t y, int t) { parameters(x, y, t); calls[0]++; return value(0); }
#ifndef LMO
int256_t S1(int128_t x, int64_t y, int64_t c, int t) { parameters(x, y, (int64_t) (x / y), c, t); calls[1]++; return value(1); }
int256_t S2_trivial(int128_t x, int64_t y, int64_t z, int64_t c, int t) { parameters(x, y, z, c, t); calls[2]++; return value(2); }
int256_t S2_easy(int128_t x, int64_t y, int64_t z, int64_t c, int t) { parameters(x, y, z, c, t); calls[3]++; return value(3); }
int256_t S2_hard(int128_t x, int64_t y, int64_t z, int64_t c, int t) { parameters(x, y, z, c, t); calls[4]++; return value(4); }
#endif
bool is_print() { return false; } bool print_result() { return false; } bool print_variables() { return false; }
void print(const std::string&) { } void print(int128_t, int64_t, int) { } void print(int128_t, int64_t, int64_t, int) { }
void print(int128_t, int64_t, int64_t, int64_t, double, int) { } void print(const std::string&, int256_t, double) { } void print_seconds(double) { }
int256_t pi_lmo_parallel1(int128_t, int) { return 0; }
int64_t pi_legendre(int64_t, int) { return 0; }
int64_t phi(int64_t, int64_t, int) { return 0; }
}
extern "C" void SX_ENTRY()
{
  int mode = (int) sx_param(0);
  if (mode == 0)
  {
    int t = (int) (int64_t) sx_u64("threads", 0, ~0u); int64_t limit = (int64_t) sx_u64("limit", 0, ~0ull >> 1), thr = (int64_t) sx_u64("threshold", 0, ~0ull);
    int n = ideal_num_threads(t, limit, thr); int64_t h = thr < 1 ? 1 : thr;
    sx_assert(n >= 1, "at least one thread"); sx_assert(n <= (t < 1 ? 1 : t), "not more threads than asked for");
    sx_assert(n == 1 || (U) n * (U) h <= (U) limit, "enough work per thread"); sx_assert(n == (t < 1 ? 1 : t) || (U) (n + 1) * (U) h > (U) limit, "as many threads as useful");
    sx_cover("end"); return;
  }
  if (mode == 1)
  {
    sxo::max_threads = (int) sx_u64("cores", 1, 1 << 20); sxt::threads = -7;
    sx_assert(get_num_threads() == sxo::max_threads, "default number of threads");
    for (int k = 0; k < 2; k++)
    {
      int t = (int) (int64_t) sx_u64("threads", 0, ~0u); set_num_threads(t);
      int want = t < 1 ? 1 : t > sxo::max_threads ? sxo::max_threads : t;
      sx_assert(get_num_threads() == want && sxt::threads == want, "number of threads is limited to 1 .. available");
    }
    sx_cover("end"); return;
  }
  I x0 = (I) sx_big((uint64_t) sx_param(2), (uint64_t) sx_param(1)), x = x0 + (I) sx_u64("offset", 0, (uint64_t) sx_param(3));
  if (mode == 2)
  {
    I e21 = (I) 1000000000000000000ll * 1000, e23 = e21 * 100;
    sx_assert(get_status_precision(x) == (x >= e23 ? 2 : x >= e21 ? 1 : 0), "default precision");
    int p = (int) (int64_t) sx_u64("precision", 0, ~0u); set_status_precision(p);
    int want = p < 0 ? 0 : p > 5 ? 5 : p;
    sx_assert(get_status_precision(x) == want, "precision is limited to 0 .. 5");
    sx_cover("end"); return;
  }
  X = x; C = -1; T = (int) sx_u64("num_threads", 1, 1 << 16);
  for (int i = 0; i < 5; i++) part[i] = sx_big(sx_u64("part", 0, 1ull << 58), 12345u * (unsigned) i * i + 7);
  sxt::token = sx_u64("primes", 0, 1);
  static const double al[12] = { -1, 0, 0.999, 1, 1.001, 1.5, 2, 10, 33.3, 1000, 1e6, 1e300 };
  int a = (int) sx_param(4);
  if (a >= 0) set_alpha(al[a]); else if (a == -2) set_alpha((double) sx_u64("thousandths", 0, 20000000000ull) / 1000.0);
  int256_t got = 0; bool thrown = false;
  try { got = pi_deleglise_rivat(x, T); } catch (primesum_error&) { thrown = true; }
  if (sx_param(5) >= 0) { bool above = sx_concretize(thrown); sx_assert(above == (sx_param(5) != 0), above ? "a supported x is refused" : "x above the maximum is refused"); }
  if (thrown) { sx_assert(!calls[0] && !calls[1] && !calls[2] && !calls[3] && !calls[4], "nothing is computed for a refused x"); sx_cover("refused"); return; }
  if (x < 2) { sx_assert((I) got == 0, "the sum is 0 below 2"); sx_cover("end"); return; }
  sx_assert(calls[0] == 1 && calls[1] == 1 && calls[2] == 1 && calls[3] == 1 && calls[4] == 1 && sxt::calls == 1 && sxt::start == 0, "every part is evaluated once");
  I want = (I) part[1] + (I) part[2] + (I) part[3] + (I) part[4] + (I) (U) sxt::token - 1 - (I) part[0];
  sx_assert((I) got == want, "S1 + S2 + sum of primes <= y - 1 - P2");
  sx_cover("end");
}
