// C22: the intervals the threads of the parallel prime sieve work on, the sums of their counts, and
// the primes and k-tuplets below 7.
#include "symx.h"
#include <future>
#include <primesieve/ParallelSieve.hpp>
#include <primesieve/PrintPrimes.hpp>
#include <primesieve/primesieve_error.hpp>
#include <vector>
using namespace primesieve;
static int hw = 8, want = 8;
unsigned std::thread::hardware_concurrency() noexcept { return (unsigned) hw; }
extern "C" long sx_clock() asm("_ZNSt6chrono3_V212system_clock3nowEv");
#ifndef SX_NATIVE
extern "C" long sx_clock() { return 1000; }
#endif
static int mode = 0; static uint64_t first_ = 0; static int calls = 0, budget = 4;
namespace sxt {
  int thread_no = 0, threads_started = 0;
  static std::vector<char> taken; static std::vector<uint64_t> pos; // schedule mode
  uint64_t take(uint64_t& value, uint64_t n)
  {
    (void) n; sx_assert(n == 1, "harness: counter step"); int c = calls++;
    if (mode == 0) return c == 0 ? first_ : c == 1 ? first_ + 1 : ~(uint64_t) 0; // any iteration and the one after it
    // any assignment of the iterations to the threads
    if (pos.size() <= (size_t) thread_no) pos.resize((size_t) thread_no + 1, 0);
    uint64_t& i = pos[(size_t) thread_no];
    for (;; i++)
    {
      if (i >= taken.size()) taken.resize(i + 1, 0);
      if (taken[i]) continue;
      if (i >= 1 && (int) i < budget && thread_no == 1 && sx_concretize(sx_u64("skip", 0, 1))) continue; // left for a later thread
      taken[i] = 1; value = i + 1; return i++;
    }
  }
}
namespace primesieve {
int get_num_threads() { return want; }
int get_sieve_size() { return 256; }
uint64_t get_max_stop() { return ~(uint64_t) 0; }
Erat::Erat() { }
void EratSmall::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
void EratMedium::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
void EratBig::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
struct Rec { uint64_t start, stop; uint64_t n[6]; };
static std::vector<Rec> rec;
PrintPrimes::PrintPrimes(PrimeSieve& ps) : counts_(ps.getCounts()), ps_(ps) { }
void PrintPrimes::sieve()
{
  Rec r; r.start = ps_.getStart(); r.stop = ps_.getStop();
  for (int i = 0; i < 6; i++) { r.n[i] = mode == 1 ? sx_u64("count", 0, (uint64_t) 1 << 58) : 0; if (mode == 1) counts_[(size_t) i] += r.n[i]; }
  rec.push_back(r);
}
}
static bool cut_ok(uint64_t b) { uint64_t r = b % 30; return (r >= 1 && r <= 6) || (r >= 23 && r <= 28); } // no candidate k-tuplet has members on both sides
static void small(uint64_t start, uint64_t stop, int flags, uint64_t* n)
{
  static const uint64_t t[][4] = { { 0, 2, 2 }, { 0, 3, 3 }, { 0, 5, 5 }, { 1, 3, 5 }, { 1, 5, 7 }, { 2, 5, 11 }, { 3, 5, 13 }, { 4, 5, 17 } };
  for (auto& p : t) if ((flags >> p[0]) & 1) n[p[0]] += start <= p[1] && p[2] <= stop;
}
static uint64_t P64(int i) { return (uint64_t) sx_param(i); }

// params: mode, start base, window, distance base, window, available threads, iteration (-1: any) / schedule length, step of start
extern "C" void SX_ENTRY()
{
  mode = (int) sx_param(0);
  if (mode == 3)
  { // primes and k-tuplets with members below 7
    uint64_t start = sx_u64("start", 0, ~(uint64_t) 0), stop = sx_u64("stop", 0, ~(uint64_t) 0);
    int flags = (int) sx_concretize(sx_u64("flags", 0, 63));
    PrimeSieve ps; ps.sieve(start, stop, flags);
    uint64_t n[6] = { 0, 0, 0, 0, 0, 0 };
    small(start, stop, flags, n);
    for (int i = 0; i < 6; i++) sx_assert(ps.getCount(i) == n[i], "primes and k-tuplets with members below 7 are counted by their members");
    bool large = start <= stop && stop >= 7;
    sx_assert(rec.size() == (large ? 1u : 0u), "the primes from 7 on are sieved once");
    if (large) sx_assert(rec[0].start == start && rec[0].stop == stop, "the primes from 7 on are sieved over the whole interval");
    sx_cover("end"); return;
  }
  uint64_t start = P64(1) + sx_u64("start", 0, P64(2)) * P64(7), dist = sx_u64("distance", P64(3), P64(3) + P64(4));
  sx_assume(dist <= ~(uint64_t) 0 - start);
  uint64_t stop = start + dist;
  hw = (int) sx_param(5);
  want = (int) sx_concretize(sx_u64("threads", 0, (uint64_t) hw + 1));
  ParallelSieve ps;
  sx_assert(ps.getNumThreads() == (want < 1 ? 1 : want > hw ? hw : want), "number of threads is clamped to 1 .. available");
  want = ps.getNumThreads();
  ps.setStart(start); ps.setStop(stop); ps.setFlags(63);
  if (mode == 0) first_ = sx_param(6) < 0 ? sx_u64("iteration", 0, ~(uint64_t) 0 - 2) : P64(6);
  else budget = (int) sx_param(6);
  ps.sieve();
  if (!sxt::threads_started)
  { // not divided
    sx_assert(stop < 7 || (rec.size() == 1 && rec[0].start == start && rec[0].stop == stop), "the whole interval is sieved");
    sx_cover("whole"); return;
  }
  sx_assert(sxt::threads_started >= 1 && sxt::threads_started <= want, "number of started threads");
  if (mode == 0)
  {
    if (rec.empty()) { // no such iteration: it lies behind the end, or its part is empty
      sx_cover("none"); return; }
    const Rec& r = rec[0];
    sx_assert(r.start >= start && r.stop <= stop && r.start <= r.stop, "part lies inside the interval");
    if (first_ == 0) sx_assert(r.start == start, "the first part begins at the start");
    if (rec.size() == 2)
    {
      sx_assert(rec[1].start == r.stop + 1 && r.stop < stop, "the next part begins where this one ends");
      sx_assert(cut_ok(r.stop), "no k-tuplet is split between two parts");
      sx_assert(rec[1].stop > r.stop && rec[1].stop <= stop, "the next part lies inside the interval");
      sx_cover("pair");
    }
    else { sx_assert(r.stop == stop, "the last part ends at the stop"); sx_cover("last"); }
  }
  else
  { // every assignment of the parts to the threads: disjoint, complete, counts added up
    uint64_t sum[6] = { 0, 0, 0, 0, 0, 0 };
    for (auto& r : rec) for (int i = 0; i < 6; i++) sum[i] += r.n[i];
    uint64_t pos = start; size_t used = 0;
    for (size_t k = 0; k < rec.size(); k++)
      for (auto& r : rec) if (r.start == pos) { used++; if (r.stop == stop) goto done; pos = r.stop + 1; break; }
    done:
    sx_assert(used == rec.size(), "the parts are disjoint and complete");
    small(start, stop, 63, sum);
    for (int i = 0; i < 6; i++) sx_assert(ps.getCount(i) == sum[i], "the threads' counts are added up");
    sx_cover("sum");
  }
}
