// C22: counting primes and prime k-tuplets of sieved segments.
#include "symx.h"
#include <primesieve/PrintPrimes.hpp>
#include <primesieve/PrimeSieve.hpp>
#include <primesieve/SievingPrimes.hpp>
#include <primesieve/PreSieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <vector>
using namespace primesieve;
extern "C" long sx_clock() asm("_ZNSt6chrono3_V212system_clock3nowEv");
#ifndef SX_NATIVE
extern "C" long sx_clock() { return 1000; }
#endif
static int nseg = 1, size_ = 8, kind = 0, pos_ = 0; static uint64_t fill_ = 0;
static std::vector<uint8_t> all; // every byte of every segment
alignas(8) static uint8_t buf[4096];
namespace primesieve {
int get_num_threads() { return 1; }
int get_sieve_size() { return 256; }
uint64_t get_max_stop() { return ~(uint64_t) 0; }
bool ParallelSieve::tryUpdateStatus(uint64_t) { return true; }
Erat::Erat() { }
void EratSmall::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
void EratMedium::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
void EratBig::storeSievingPrime(uint64_t, uint64_t, uint64_t) { }
static int seg = 0;
void Erat::init(uint64_t start, uint64_t stop, uint64_t, PreSieve&) { start_ = start; stop_ = stop; sieve_ = buf; sieveSize_ = (uint64_t) size_; segmentLow_ = 30; segmentHigh_ = stop; seg = 0; }
bool Erat::hasNextSegment() const { return seg < nseg; }
void Erat::sieveSegment()
{
  for (int i = 0; i < 4096; i++) buf[i] = 0;
  int last = seg == nseg - 1 ? (int) sx_param(3) : size_; // the last segment may be shorter; the bytes up to the next multiple of 8 are 0
  sieveSize_ = (uint64_t) last;
  for (int i = 0; i < last; i++)
  {
    int g = (int) all.size();
    uint8_t mask = kind != 1 || g / 8 < pos_ || g / 8 >= (int) sx_param(6) ? 0 : (uint8_t) ((uint64_t) sx_param(7) >> (g % 8 * 8)), rest = (uint8_t) (fill_ >> (g % 8 * 8));
    uint8_t b = kind == 1 ? (uint8_t) (mask ? ((uint8_t) sx_u64("byte", 0, 255) & mask) | (rest & ~mask) : rest) : g == pos_ ? (uint8_t) sx_concretize(sx_u64("byte", 0, 255)) : (uint8_t) (fill_ >> (g % 8 * 8));
    buf[i] = b; all.push_back(b);
  }
  seg++;
}
SievingPrimes::SievingPrimes(Erat*, PreSieve&) { }
void SievingPrimes::fill() { primes_[0] = ~(uint64_t) 0; i_ = 0; size_ = 1; }
}
static const int val[8] = { 7, 11, 13, 17, 19, 23, 29, 31 };
static bool in(long n) { for (int k = 0; k < 8; k++) { long b = (n - val[k]); if (b >= 0 && b % 30 == 0 && b / 30 < (long) all.size()) return (all[(size_t) (b / 30)] >> k) & 1; } return false; }

// params: kind (0: k-tuplets, one open byte; 1: primes, all bytes open), segments, bytes per segment, bytes in the last one, open byte (kind 1: first open word), the other bytes, (kind 1: end of the open words, open bits of a word)
extern "C" void SX_ENTRY()
{
  kind = (int) sx_param(0); nseg = (int) sx_param(1); size_ = (int) sx_param(2); pos_ = (int) sx_param(4); fill_ = (uint64_t) sx_param(5);
  PrimeSieve ps; ps.setStart(37); ps.setStop(1000000);
  int flags = kind == 1 ? COUNT_PRIMES : kind == 2 ? (int) sx_concretize(sx_u64("flags", 0, 63)) : 63;
  ps.sieve(37, 1000000, flags);
  if (kind == 1)
  {
    uint64_t n = 0; for (uint8_t b : all) for (int k = 0; k < 8; k++) n += (b >> k) & 1;
    sx_assert(ps.getCount(0) == n, "every prime is counted once");
    sx_cover("end"); return;
  }
  static const int pat[][7] = { { 1, 0 }, { 2, 2 }, { 3, 2, 6 }, { 3, 4, 6 }, { 4, 2, 6, 8 }, { 5, 2, 6, 8, 12 }, { 5, 4, 6, 10, 12 }, { 6, 4, 6, 10, 12, 16 } };
  uint64_t n[6] = { 0, 0, 0, 0, 0, 0 };
  for (long p = 7; p < 30 * (long) all.size() + 7; p++) if (in(p)) for (auto& t : pat) { bool ok = true; for (int m = 1; m < t[0] && ok; m++) ok = in(p + t[m]); n[t[0] - 1] += ok; }
  for (int i = 0; i < 6; i++) sx_assert(ps.getCount(i) == ((flags >> i) & 1 ? n[i] : 0), "every prime k-tuplet is counted once, others are not");
  sx_cover("end");
}
