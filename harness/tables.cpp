// C11: PiTable and FactorTable against their definitions.
#include "symx.h"
#include <primesieve.hpp>
#include <PiTable.hpp>
#include <FactorTable.hpp>
#include <vector>
using namespace primesum;
std::vector<uint64_t> sxu::P;
static int wanted = 1;
namespace primesum { // any division of the work: the real function limits the threads for small tables
int ideal_num_threads(int threads, int64_t, int64_t) { return wanted; }
}
static bool isPrime(int64_t n) { if (n < 2) return false; for (int64_t j = 2; j * j <= n; j++) if (n % j == 0) return false; return true; }
static int64_t lpfOf(int64_t n) { for (int64_t j = 2; j * j <= n; j++) if (n % j == 0) return j; return n; }
static int muOf(int64_t n) { int m = 1; for (int64_t j = 2; j * j <= n; j++) if (n % j == 0) { n /= j; m = -m; if (n % j == 0) return 0; } return n > 1 ? -m : m; }
static bool cop(uint64_t n) { return n % 2 && n % 3 && n % 5 && n % 7; }

template <class T> static void factorTable(int64_t y)
{
  FactorTable<T> f(y, wanted);
  std::vector<int64_t> ps; for (int64_t p = 11; p * p <= (y < 8 ? 8 : y); p++) if (isPrime(p)) ps.push_back(p);
  int64_t i = 0;
  for (int64_t n = 1; n <= y; n++)
  {
    if (cop(n))
    {
      int64_t j = n; FactorTable<T>::to_index(&j);
      sx_assert(j == i, "index of a number"); sx_assert(FactorTable<T>::get_number(i) == n, "number of an index");
      if (n > 1)
      {
        int m = muOf(n); int64_t l = lpfOf(n);
        if (m) sx_assert(f.mu(i) == m, "Moebius value");
        for (int64_t p : ps) if (p < n) sx_assert((p < f.lpf(i)) == (m != 0 && p < l), "least prime factor comparison");
        if (!m) sx_assert(!(1 < f.lpf(i)), "numbers with a square factor are no leaves");
      }
      i++;
    }
    else if (n > 1) { int64_t j = n; FactorTable<T>::to_index(&j); sx_assert(j == i - 1, "index of the next smaller number"); }
  }
}

extern "C" void SX_ENTRY()
{
  switch (sx_param(0))
  {
  case 0: // PiTable(max), max in a window
  {
    uint64_t max = sx_concretize(sx_u64("max", (uint64_t) sx_param(1), (uint64_t) sx_param(2)));
    sxu::dense(max + 60);
    PiTable pi(max);
    int64_t c = 0;
    for (uint64_t n = 0; n <= max; n++) { c += isPrime(n); sx_assert(pi[n] == c, "number of primes <= n"); }
    sx_assert(pi.size() == (int64_t) max + 1, "size");
    sx_cover("end"); break;
  }
  case 1: // any set of marked positions: counting does not depend on the numbers being primes
  {
    sxu::P.clear(); uint64_t max = (uint64_t) sx_param(1), base = (uint64_t) sx_param(2); std::vector<char> in(max + 1, 0);
    for (uint64_t n = base; n < base + 10 && n <= max; n++) if (sx_u64("in", 0, 1)) { sxu::P.push_back(n); in[n] = 1; }
    for (uint64_t n = base + 10; n <= max; n += 61) { sxu::P.push_back(n); in[n] = 1; }
    PiTable pi(max); int64_t c = 0;
    for (uint64_t n = 0; n <= max; n++) { c += in[n]; sx_assert(pi[n] == c, "number of elements <= n"); }
    sx_cover("end"); break;
  }
  case 2: // index mappings for every number
  {
    uint64_t r = sx_concretize(sx_u64("class", 0, 209)), q = sx_u64("quotient", r ? 0 : 1, ((uint64_t) 1 << 61) / 210 - 1), n = 210 * q + r;
    uint64_t below = 0; for (uint64_t t = 1; t <= r; t++) below += cop(t);
    int64_t i = AbstractFactorTable::get_index(n), j = (int64_t) n;
    AbstractFactorTable::to_index(&j);
    sx_assert(i == (int64_t) (48 * q + below) - 1, "index is the count of coprime numbers <= n, minus one"); sx_assert(j == i, "to_index");
    uint64_t s = r; int64_t back = 0; while (s > 0 && !cop(s)) s--;
    if (s) { back = AbstractFactorTable::get_number((uint64_t) i); sx_assert(back == (int64_t) (210 * q + s), "number of the index is the largest coprime number <= n"); }
    uint64_t k = sx_concretize(sx_u64("slot", 0, 47)), v = (uint64_t) AbstractFactorTable::get_number(48 * q + k);
    sx_assert(v >= 210 * q + 1 && v < 210 * q + 210, "number of an index"); sx_assert(AbstractFactorTable::get_index(v) == (int64_t) (48 * q + k), "the mappings are inverse");
    sx_cover("end"); break;
  }
  case 3: // FactorTable(y, threads): params: 16/32/8 bit, y window, threads window
  {
    int64_t y = (int64_t) sx_concretize(sx_u64("y", (uint64_t) sx_param(2), (uint64_t) sx_param(3)));
    wanted = (int) sx_concretize(sx_u64("threads", (uint64_t) sx_param(4), (uint64_t) sx_param(5)));
    sxu::dense((uint64_t) (y / 11 > 11 ? y / 11 : 11) + 40);
    if (sx_param(1) == 16) factorTable<uint16_t>(y); else factorTable<uint32_t>(y);
    sx_cover("end"); break;
  }
  case 4: // y above the limit of the entry type is refused
  {
    bool thrown = false; wanted = 1; sxu::dense(100);
    uint64_t lim = (uint64_t) 65534 * 65534 - 1;
    sx_assert(FactorTable<uint16_t>::max() == (int128_t) lim, "limit");
    sx_assert(FactorTable<uint32_t>::max() == (int128_t) 4294967294u * 4294967294u - 1, "limit");
    try { FactorTable<uint16_t> f((int64_t) sx_u64("y", lim + 1, (uint64_t) 1 << 62), 1); } catch (const primesum_error&) { thrown = true; }
    sx_assert(thrown, "refused"); sx_cover("end"); break;
  }
  }
}
