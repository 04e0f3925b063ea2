// C24: the n-th prime search over an arbitrary set of primes.
#include "symx.h"
#include <primesieve/PrimeSieve.hpp>
#include <primesieve/PrintPrimes.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <primesieve/PrimeGenerator.hpp>
#include <primesieve/iterator.hpp>
#include <primesieve/primesieve_error.hpp>
#include <vector>
using namespace primesieve;
extern "C" long sx_clock() asm("_ZNSt6chrono3_V212system_clock3nowEv");
#ifndef SX_NATIVE
extern "C" long sx_clock() { return 1000; }
#endif
static const uint64_t END = ~(uint64_t) 0;
static std::vector<uint64_t> P;              // kind 0: a list of primes
static int kind; static uint64_t A, g, K;    // kind 1: the primes A + g * k, k < K
static uint64_t count_upto(uint64_t x)       // primes <= x
{
  if (kind == 0) { uint64_t n = 0; for (uint64_t p : P) { if (!sx_concretize(p <= x)) break; n++; } return n; }
  if (sx_concretize(x < A)) return 0; if (sx_concretize(x >= A + g * (K - 1))) return K; return sx_concretize((x - A) / g) + 1;
}
static uint64_t nth_(uint64_t k) { return k >= (kind ? K : P.size()) ? END : kind ? A + g * k : P[k]; } // 0-based
namespace primesieve {
int get_num_threads() { return 1; }
int get_sieve_size() { return 256; }
uint64_t get_max_stop() { return END; }
bool ParallelSieve::tryUpdateStatus(uint64_t) { return true; }
Erat::Erat() { }
Erat::Erat(uint64_t, uint64_t) { }
void EratSmall::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
void EratMedium::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
void EratBig::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
PrintPrimes::PrintPrimes(PrimeSieve& ps) : counts_(ps.getCounts()), ps_(ps) { }
void PrintPrimes::sieve() { }
iterator::iterator(uint64_t start, uint64_t stop_hint) { skipto(start, stop_hint); }
iterator::~iterator() = default;
void iterator::skipto(uint64_t start, uint64_t stop_hint) { start_ = start; stop_ = start; stop_hint_ = stop_hint; i_ = 0; last_idx_ = 0; dist_ = 0; primes_.clear(); }
void iterator::generate_next_primes()
{
  uint64_t k = primes_.empty() ? sx_concretize(count_upto(start_)) : dist_;
  primes_.clear(); for (int i = 0; i < 64; i++) { primes_.push_back(nth_(k)); if (primes_.back() == END) break; k++; }
  dist_ = k; i_ = 0; last_idx_ = primes_.size() - 1;
}
void iterator::generate_prev_primes()
{
  uint64_t k = sx_concretize(start_ ? count_upto(start_ - 1) : 0);
  primes_.clear(); primes_.push_back(0); for (uint64_t i = 0; i < k; i++) primes_.push_back(nth_(i));
  last_idx_ = primes_.size() - 1; i_ = last_idx_;
}
}
static int calls;
struct Sieve : PrimeSieve
{
  void sieve() override
  {
    reset();
    sx_assert(++calls < 2000, "the search ends");
    if (start_ > stop_) return;
    counts_[0] = count_upto(stop_) - (start_ ? count_upto(start_ - 1) : 0);
  }
};
static uint64_t P64(int i) { return (uint64_t) sx_param(i); }

// params: kind, base, window, start base - base, window of start; kind 0: number of primes, |n| limit; kind 1: gap, number of primes, n, window of n
extern "C" void SX_ENTRY()
{
  kind = (int) sx_param(0);
  uint64_t base = P64(1), w = P64(2), start = base + sx_u64("start", P64(3), P64(3) + P64(4));
  int64_t n;
  if (kind == 0)
  {
    start = sx_concretize(start); int k = (int) sx_param(5);
    for (int i = 0; i < k; i++) { uint64_t p = base + sx_u64("prime", 0, w); sx_assume(p >= 2 && p < END && (i == 0 || p > P[i - 1])); P.push_back(p); }
    n = (int64_t) sx_concretize(sx_u64("n", 0, 2 * P64(6))) - sx_param(6);
  }
  else
  {
    g = P64(5); K = P64(6); A = base + sx_u64("first", 0, w); sx_assume(A >= 2);
    start = sx_concretize(start);
    n = sx_param(7) + (int64_t) sx_concretize(sx_u64("n", 0, P64(8)));
  }
  // expected: the n-th prime above (below) start, n = 0: the first one >= start
  uint64_t lower = start ? count_upto(start - 1) : 0, upto = count_upto(start), want = END; bool exists;
  uint64_t total = kind ? K : P.size();
  if (kind == 0)
  {
    exists = false;
    for (uint64_t i = 0; i < total; i++)
    {
      bool hit = n > 0 ? i + 1 == upto + (uint64_t) n : n == 0 ? i == lower : i + (uint64_t) -n == lower;
      want = hit ? P[i] : want; exists |= hit;
    }
  }
  else
  {
    uint64_t i = n > 0 ? upto + (uint64_t) n - 1 : n == 0 ? lower : lower - (uint64_t) -n;
    exists = n < 0 ? lower >= (uint64_t) -n : i < K;
    want = exists ? A + g * i : END;
  }
  if (n < 0 && base > 1000000) sx_assume(lower > (uint64_t) -n); // otherwise the search goes down to 0 in small steps
  Sieve ps; uint64_t got = END; bool refused = false;
  try { got = ps.nthPrime(n, start); } catch (primesieve_error&) { refused = true; }
  sx_cover("end");
  if (refused) { sx_assert(!exists, "refused only if there is no such prime"); sx_cover("refused"); }
  else { sx_assert(exists, "an error if there is no such prime"); sx_assert(got == want, "the prime with the requested number"); sx_observe("prime", got); sx_cover("found"); }
}
