// C17: direct prime sums, Legendre's formula on top of phi(), the table of the first primes, generated lists and tables.
#include "symx.h"
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <primesum.hpp>
#include <generate.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <vector>
#include <exception>
using namespace primesum;
typedef unsigned __int128 U;
typedef __int128 I;
namespace sxu { std::vector<uint64_t> P; }
namespace sxo { int max_threads = 16; }
static int64_t root(int64_t x) // by the definition
{
  int64_t r = (int64_t) sx_u64("root", 0, 3037000499ull); sx_assume((I) r * r <= x && (I) (r + 1) * (r + 1) > x); return r;
}
static int levels; static int64_t arg[8], rootOf[8], pix[8]; static int thr;
namespace primesum {
// Legendre: phi(x, pi(sqrt x)) = pi(x) - pi(sqrt x) + 1. pi() is an arbitrary function, given per level by the harness.
int64_t phi(int64_t x, int64_t a, int threads)
{
  for (int k = 0; k < levels; k++) if (x == arg[k])
  {
    sx_assert(a == pix[k + 1], "phi() is asked with a = pi(sqrt(x))"); sx_assert(k > 0 || threads == thr, "threads handed over");
    return pix[k] - a + 1;
  }
  sx_assert(false, "phi() is asked for x, sqrt(x), sqrt(sqrt(x)), ..."); return 0;
}
#define NOP256(decl) int256_t decl { return 0; }
NOP256(pi_deleglise_rivat_parallel1(int128_t, int)) NOP256(pi_lmo_parallel1(int128_t, int))
}
static void universe(int k, uint64_t top)
{
  uint64_t last = 1;
  for (int i = 0; i < k; i++) { uint64_t p = sx_u64("prime", 2, top); sx_assume(p > last); last = p; sxu::P.push_back(p); }
}
template <class T> static void lists(int k, uint64_t top)
{
  universe(k, top);
  int64_t max = (int64_t) sx_u64("max", 0, top);
  std::vector<T> v = generate_primes<T>(max), s = generate_prime_sums<T>(max);
  uint64_t n = 0; while (n < sxu::P.size() && sxu::P[n] <= (uint64_t) max) n++;
  sx_assert(v.size() == n + 1 && s.size() == n + 1, "one entry per prime, and the one at 0");
  sx_assert(v[0] == 0 && s[0] == 0, "entry 0 is 0");
  U sum = 0;
  for (uint64_t i = 1; i <= n; i++) { sum += sxu::P[i - 1]; sx_assert((U) v[i] == sxu::P[i - 1], "the i-th prime is at index i"); sx_assert((U) s[i] == sum, "the sum of the first i primes is at index i"); }
  sx_cover("end");
}
extern "C" void SX_ENTRY()
{
  int mode = (int) sx_param(0), k = (int) sx_param(1);
  if (mode == 0)
  {
    universe(k, 1ull << 62); int64_t x = (int64_t) (sx_u64("x", 0, (1ull << 62) + 100) - 100);
    U want = 0; I r = prime_sum_tiny(x);
    for (uint64_t p : sxu::P) if ((I) p <= (I) x) want += p;
    sx_assert((U) r == want, "sum of the primes <= x"); sx_cover("end"); return;
  }
  if (mode == 1)
  {
    int64_t x = sx_param(2) + (int64_t) sx_u64("offset", 0, (uint64_t) sx_param(3)); thr = (int) sx_u64("threads", 1, 1000);
    arg[0] = x; levels = k; // number of square roots until the argument is below 2
    for (int i = 0; i < k; i++) { sx_assume(arg[i] >= 2); arg[i + 1] = rootOf[i] = root(arg[i]); }
    sx_assume(arg[k] < 2); pix[k] = 0;
    for (int i = k - 1; i >= 0; i--) { pix[i] = (int64_t) sx_u64("pi", 0, 1ull << 61); }
    int64_t r; if (sx_param(4)) { set_num_threads(thr = 8); r = pi_legendre(x); } else r = pi_legendre(x, thr);
    sx_assert(r == pix[0], "pi_legendre(x) = pi(x)"); sx_cover("end"); return;
  }
  if (mode == 2)
  {
    int64_t n = (int64_t) sx_u64("n", 0, ~0ull); bool refused = false; int64_t p = 0;
    try { p = nth_prime(n); } catch (std::exception&) { refused = true; }
    sx_assert(refused == (n >= 10), "n >= 10 is refused");
    if (!refused)
    {
      if (n < 2) sx_assert(p == 2, "2 below index 2");
      else
      { // p is prime and has n - 1 primes below it
        int64_t d = (int64_t) sx_u64("divisor", 2, 30); sx_assert(d >= p || p % d != 0, "a prime"); int64_t below = 0;
        for (int64_t q = 2; q < 30; q++) { bool pr = true; for (int64_t e = 2; e < q; e++) pr &= q % e != 0; below += pr && q <= p; }
        sx_assert(p < 30 && below == n, "the n-th one");
      }
    }
    sx_cover("end"); return;
  }
  if (mode == 3)
  {
    switch (sx_param(2)) { case 0: lists<int32_t>(k, 1u << 28); break; case 1: lists<int64_t>(k, 1ull << 60); break; case 2: lists<I>(k, 1ull << 62); break; case 3: lists<uint32_t>(k, 1u << 29); break; case 4: lists<uint64_t>(k, 1ull << 60); break; }
    return;
  }
  if (mode == 4)
  {
    universe(k, (1ull << 31) - 1); int64_t n = (int64_t) sx_u64("n", 0, k), max = (int64_t) sx_u64("max", 0, (1ull << 31) - 1);
    std::vector<int32_t> v = generate_n_primes(n), w = generate_primes(max);
    sx_assert((int64_t) v.size() == n + 1 && v[0] == 0 && w[0] == 0, "n primes after the entry 0");
    for (int64_t i = 1; i <= n; i++) sx_assert((uint64_t) v[i] == sxu::P[i - 1], "the i-th prime is at index i");
    uint64_t c = 0; while (c < sxu::P.size() && sxu::P[c] <= (uint64_t) max) c++;
    sx_assert(w.size() == c + 1, "the primes up to max"); for (uint64_t i = 1; i <= c; i++) sx_assert((uint64_t) w[i] == sxu::P[i - 1], "the i-th prime is at index i");
    sx_cover("end"); return;
  }
  // tables for all integers up to max: each entry against its definition, for every divisor candidate
  int64_t max = (int64_t) sx_concretize(sx_u64("max", (uint64_t) sx_param(1), (uint64_t) sx_param(2)));
  std::vector<int32_t> mu = generate_moebius(max), lpf = generate_lpf(max), pi = generate_pi(max);
  sx_assert((int64_t) mu.size() == max + 1 && (int64_t) lpf.size() == max + 1 && (int64_t) pi.size() == max + 1, "entries 0 .. max");
  sx_assert(pi[0] == 0, "pi(0)"); if (max >= 1) sx_assert(mu[1] == 1 && lpf[1] == 0x7fffffff && pi[1] == 0, "entries at 1");
  int64_t d = (int64_t) sx_u64("d", 2, (uint64_t) (max < 2 ? 2 : max));
  for (int64_t n = 2; n <= max; n++)
  {
    int64_t l = lpf[n];
    sx_assert(l >= 2 && n % l == 0, "lpf(n) is a divisor"); 
    if (max <= 200) sx_assert(d >= l || n % d != 0, "the least one");
    else for (int64_t e = 2; e < l && e * e <= n; e++) sx_assert(n % e != 0, "the least one");
    sx_assert(l == n || l * l <= n, "not above the root");
    int64_t m = n / l; // mu(n) = -mu(n / p), 0 if p^2 | n
    sx_assert(mu[n] == (m % l == 0 ? 0 : m == 1 ? -1 : -mu[m]), "Moebius value");
    sx_assert(pi[n] == pi[n - 1] + (l == n ? 1 : 0), "prime count");
  }
  sx_cover("end");
}
