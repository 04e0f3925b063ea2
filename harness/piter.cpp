// C21: the prime iterators and stored lists over an arbitrary set of primes (any of k candidates, the sieve is a stand-in).
#include "symx.h"
#include <primesieve/Erat.hpp>
#include <primesieve/PrimeGenerator.hpp>
#include <primesieve/SievingPrimes.hpp>
#include <primesieve/StorePrimes.hpp>
#include <primesieve/iterator.hpp>
#include <primesieve/iterator.h>
#include <primesieve/primesieve_error.hpp>
#include <algorithm>
#include <vector>
using namespace primesieve;
typedef uint64_t u64;
static const u64 END = ~(u64) 0;
static int SEG = 16;                    // bytes of a segment
static std::vector<u64> C; static std::vector<bool> in; static std::vector<u64> small, roots; // candidates, is it a prime; primes <= 719; sieving primes
static size_t K0; static int layout;                            // how many bytes before the first candidate a segment begins
static bool prime(size_t i) { return in[i]; }
static u64 isq(u64 n) { u64 r = 0; for (u64 b = (u64) 1 << 31; b; b >>= 1) if ((unsigned __int128) (r + b) * (r + b) <= n) r += b; return r; }
static const int WHEEL[8] = { 7, 11, 13, 17, 19, 23, 29, 31 };
// sieving primes handed over by a generator, in order
static std::vector<u64> given; static int made, asked;
namespace primesieve {
int get_sieve_size() { return 256; }
u64 get_max_stop() { return END; }
Erat::Erat() { }
Erat::Erat(u64 start, u64 stop) : start_(start), stop_(stop) { sx_assert(++made < 20000, "the search for the next prime ends"); }
void EratSmall::storeSievingPrime(u64, u64, u64) { }
void EratMedium::init(u64 stop, u64, u64) { stop_ = stop; }
void EratMedium::storeSievingPrime(u64 p, u64, u64) { for (u64 g : given) sx_assert(g != p, "a sieving prime is added once"); given.push_back(p); }
void EratBig::storeSievingPrime(u64, u64, u64) { }
void Erat::init(u64 start, u64 stop, u64, PreSieve&)
{
  sx_assert(start >= 7 && start <= stop, "the sieve is used with 7 <= start <= stop");
  start_ = start; stop_ = stop; deleter_.reset(new uint8_t[SEG]); sieve_ = deleter_.get(); sieveSize_ = SEG; maxEratSmall_ = 0; maxEratMedium_ = END; eratMedium_.init(stop, 0, 0); given.clear();
  // the next segment begins in front of the next candidate
  maxPreSieve_ = sx_concretize(start_ > 719) ? K0 : 0; while (maxPreSieve_ < C.size() && C[maxPreSieve_] < start_) maxPreSieve_++;
  segmentLow_ = 0; segmentHigh_ = 0; if (maxPreSieve_ < C.size() && C[maxPreSieve_] <= stop_) { u64 c = C[maxPreSieve_]; segmentLow_ = (c - 7) / 30 * 30; u64 back = (u64) layout * 30; if (segmentLow_ >= back + 720) segmentLow_ -= back; segmentHigh_ = std::min(stop_, segmentLow_ > END - (SEG * 30 + 1) ? END : segmentLow_ + SEG * 30 + 1); }
}
bool Erat::hasNextSegment() const { sx_assert(++asked < 20000, "the search for the next prime ends"); return deleter_ && maxPreSieve_ < C.size() && C[maxPreSieve_] <= stop_; }
}
static void place(u64 low, u64 start, u64 stop, uint8_t* sieve, u64& cursor)
{
  for (int i = 0; i < SEG; i++) sieve[i] = 0;
  for (; cursor < C.size() && C[cursor] <= stop; cursor++)
  {
    u64 d = C[cursor] - low; if (d > (u64) SEG * 30 + 1) break;
    int byte = (int) ((d - 7) / 30), r = (int) (d - (u64) byte * 30), bit = 0; while (WHEEL[bit] != r) bit++;
    if (C[cursor] >= start) sieve[byte] = (uint8_t) (sieve[byte] | (in[cursor] ? 1 << bit : 0));
  }
}
namespace primesieve {
void Erat::sieveSegment()
{
  sx_assert(hasNextSegment(), "there is a further segment");
  u64 low = segmentLow_, high = segmentHigh_;
  for (u64 r : roots) // r * q in this segment
  {
    u64 q = std::max(r, (low + 6) / r + 1); while (q % 2 == 0 || q % 3 == 0 || q % 5 == 0) q++;
    if ((unsigned __int128) r * q <= high) { sx_cover("sieving prime"); sx_assert(std::find(given.begin(), given.end(), r) != given.end(), "a sieving prime with a multiple in the segment has been added"); }
  }
  place(low, start_, stop_, sieve_, maxPreSieve_);
  // the next one (PrimeGenerator has read segmentLow_ and segmentHigh_ before)
  if (hasNextSegment()) { segmentLow_ = (C[maxPreSieve_] - 7) / 30 * 30; segmentHigh_ = std::min(stop_, segmentLow_ > END - (SEG * 30 + 1) ? END : segmentLow_ + SEG * 30 + 1); }
}
static size_t next_root;
void SievingPrimes::init(Erat*, PreSieve&) { next_root = 0; i_ = size_ = 0; }
void SievingPrimes::fill() { primes_[0] = next_root < roots.size() ? roots[next_root] : END; next_root++; i_ = 0; size_ = 1; }
}
static u64 next_of(u64 n) // smallest prime > n
{
  if (sx_concretize(n < 719)) return *std::upper_bound(small.begin(), small.end(), n);
  for (size_t i = sx_concretize((u64) (std::upper_bound(C.begin() + K0, C.end(), n) - C.begin())); i < C.size(); i++) if (prime(i)) return C[i];
  return END;
}
static u64 prev_of(u64 n) // greatest prime < n, 0
{
  for (size_t i = sx_concretize((u64) (std::lower_bound(C.begin() + K0, C.end(), n) - C.begin())); i-- > K0; ) if (prime(i)) return C[i];
  auto k = std::lower_bound(small.begin(), small.end(), n); return k == small.begin() ? 0 : k[-1];
}
static u64 pick(const char* name, int k, u64 lo) // a number around the k-th candidate
{
  u64 i = sx_concretize(sx_u64(name, 0, (u64) k)); (void) lo;
  return K0 + i / 4 < C.size() ? C[K0 + i / 4] + i % 4 - 1 : i % 2 ? END : END - 1;
}
static u64 some(const char* name, u64 w) { u64 v = sx_u64(name, 0, w); return w > 1000 ? v : sx_concretize(v); } // wide windows stay symbolic
// params: kind, base, candidates, stride, fence (first candidate is prime), layout, depth, start choices or window, hint choices
extern "C" void SX_ENTRY()
{
  int kind = (int) sx_param(0); u64 base = (u64) sx_param(1), stride = (u64) sx_param(3); int k = (int) sx_param(2), depth = (int) sx_param(6); layout = (int) sx_param(5); if (kind == 4) SEG = (int) sx_param(4);
  for (u64 i = 2; i <= 719; i++) { bool is = true; for (u64 p : small) if (i % p == 0) is = false; if (is) small.push_back(i); }
  for (u64 p : small) if (p > 5) { C.push_back(p); in.push_back(true); } // the sieve shows them if it is asked to
  K0 = C.size();
  for (int i = 0; i < k; i++)
  {
    u64 c = base + (u64) i * stride; if (i > 0 && c <= C.back()) c = C.back() + 1; while (c < 727 || c % 2 == 0 || c % 3 == 0 || c % 5 == 0) c++;
    C.push_back(c); in.push_back((kind < 4 && i == 0 && sx_param(4)) || kind == 4 && (i % 61 || !sx_param(8)) ? true : sx_concretize(sx_u64("prime", 0, 1)) == 1);
  }
  for (size_t i = K0; i < C.size(); i++) for (u64 c = C[i], r = isq(c) - 8; r < isq(c) + 9; r++) if (r > 7 && r % 2 && r % 3 && r % 5 && (roots.empty() || r > roots.back())) roots.push_back(r);
  if (kind <= 1)
  {
    // a history of calls; a start in a window or around a candidate
    u64 start = sx_param(7) < 0 ? base - (u64) sx_param(9) + some("start", (u64) -sx_param(7)) : pick("start", (int) sx_param(7), 0);
    bool hinted = sx_param(8) > 0; u64 hint = hinted ? pick("hint", (int) sx_param(8) - 1, 0) : END;
    iterator it(kind ? 0 : start, hint); primesieve_iterator ci;
    if (kind) { primesieve_init(&ci); primesieve_skipto(&ci, start, hint); }
    u64 cur = start; // the number the next call starts from
    for (int d = 0; d < depth; d++)
    {
      int op = (int) sx_concretize(sx_u64("op", 0, sx_param(10) ? 2 : 1));
      if (op == 2) { cur = pick("skip", 4 * k + 1, 0); if (kind) primesieve_skipto(&ci, cur, hint); else it.skipto(cur, hint); continue; }
      u64 want = op ? prev_of(cur) : next_of(cur); if (op) sx_assume(cur - want <= 300000000); // farther down takes too many steps
      u64 got = kind ? (op ? primesieve_prev_prime(&ci) : primesieve_next_prime(&ci)) : op ? it.prev_prime() : it.next_prime();
      sx_assert(got == want, op ? "previous prime" : "next prime"); sx_observe("prime", got); sx_cover(op ? "prev" : "next"); if (got == END) sx_cover("end marker");
      cur = got;
    }
    if (kind) { sx_assert(!ci.is_error, "no error"); primesieve_free_iterator(&ci); }
    sx_cover("end");
  }
  if (kind == 4) // dense primes: forwards, backwards, forwards, ... past the ends of the buffers
  {
    u64 start = C[K0 + sx_concretize(sx_u64("first", 0, (u64) sx_param(7)))] - 1, cur = start; iterator it(start); primesieve_iterator ci; primesieve_init(&ci); primesieve_skipto(&ci, start, END);
    int turns[4]; for (int t = 0; t < 4; t++) turns[t] = (int) (sx_param(9 + t) + (int64_t) sx_concretize(sx_u64("steps", 0, (u64) sx_param(13))));
    for (int f = 0; f < 2; f++)
    {
      cur = start;
      for (int t = 0; t < 4; t++) for (int i = 0; i < turns[t]; i++)
      {
        cur = t % 2 ? prev_of(cur) : next_of(cur);
        u64 got = f ? (t % 2 ? primesieve_prev_prime(&ci) : primesieve_next_prime(&ci)) : t % 2 ? it.prev_prime() : it.next_prime();
        sx_assert(got == cur, "the next or previous prime");
      }
    }
    primesieve_free_iterator(&ci); sx_cover("end");
  }
  if (kind == 2) // primes of an interval
  {
    u64 start = sx_param(7) < 0 ? base - (u64) sx_param(9) + some("start", (u64) -sx_param(7)) : pick("start", (int) sx_param(7), 0), stop = pick("stop", (int) sx_param(8), 0);
    if (sx_param(10)) stop = (u64) sx_param(10) - 1 + sx_concretize(sx_u64("stop2", 0, (u64) sx_param(11)));
    std::vector<u64> v; v.push_back(5);
    store_primes(start, stop, v);
    std::vector<u64> want; want.push_back(5); for (u64 p : small) if (p >= start && p <= stop) want.push_back(p);
    for (size_t i = K0; i < C.size(); i++) if (C[i] >= start && C[i] <= stop && prime(i)) want.push_back(C[i]);
    sx_assert(v == want, "all primes of [start, stop] in order, after what was there"); sx_observe("size", v.size()); sx_cover("end");
  }
  if (kind == 3) // n primes from start on
  {
    u64 start = sx_param(7) < 0 ? base - (u64) sx_param(9) + some("start", (u64) -sx_param(7)) : pick("start", (int) sx_param(7), 0), n = sx_concretize(sx_u64("n", 0, (u64) depth));
    std::vector<u64> v, want; bool refused = false, fits = true;
    u64 p = start ? start - 1 : 0; for (u64 i = 0; i < n; i++) { p = next_of(p); want.push_back(p); if (p == END) fits = false; }
    try { store_n_primes(n, start, v); } catch (primesieve_error&) { refused = true; }
    if (fits && n > 0 && next_of(p) == END) { sx_cover("last"); return; } // one prime more than asked for is looked for: an error is allowed
    sx_assert(refused == !fits, "an error iff there are not that many primes"); if (!refused) sx_assert(v == want, "the first n primes >= start"); sx_cover("end");
  }
}
