// C13: first and following wheel positions of sieving primes.
#include "symx.h"
#include <Wheel.hpp>
#include <vector>
using namespace primesum;
typedef unsigned __int128 U;
static bool cop(uint64_t q) { return q % 2 && q % 3 && q % 5 && q % 7; }
static const int64_t primes_[] = { 0, 11, 13, 17, 31, 97, 211, 1009, 10007, 65537, 1000003, 15485863, 179424673, 2147483647, 4294967291, 1000000000039 };

extern "C" void SX_ENTRY()
{
  int kind = (int) sx_param(0);
  int64_t p = primes_[sx_param(1)];
  // low = p * (210 k + r - 1) + 1 + e with 0 <= e < p, so ceil(low / p) = 210 k + r
  uint64_t r = kind == 1 ? (uint64_t) sx_param(2) : sx_concretize(sx_u64("class", 1, 210));
  uint64_t kmax = (((uint64_t) 1 << 61) / (uint64_t) p) / 210;
  uint64_t k = kmax > 2 ? sx_u64("k", 0, kmax - 2) : 0;
  int64_t e = (int64_t) sx_u64("offset", 0, (uint64_t) p - 1);
  if (kind == 1) e = (int64_t) sx_concretize((uint64_t) e);
  int64_t low = p * (int64_t) (210 * k + r - 1) + 1 + e;
  std::vector<int64_t> primes; // index 1 .. n
  int idx = (int) sx_param(3);
  for (int i = 0; i <= idx; i++) primes.push_back(i == idx ? p : primes_[1 + i % 4]);
  Wheel w(primes, idx + 1, low);
  if (kind == 0)
  { // first multiple, then more than one turn of the wheel
    WheelItem& item = w[idx];
    uint64_t c = r; while (!cop(c)) c++;
    int64_t m = item.next_multiple, wi = item.wheel_index;
    sx_assert(m >= low, "first multiple is not below the interval");
    for (int i = 0; i < 60; i++)
    {
      sx_assert(m == p * (int64_t) (210 * k + c), "next multiple with a cofactor coprime to 2, 3, 5, 7");
      m += p * Wheel::next_multiple_factor(&wi);
      do c++; while (!cop(c));
    }
  }
  else
  { // consecutive segments: the saved state resumes at the next multiple
    int64_t seg = sx_param(4), pos = low; uint64_t c = r; while (!cop(c)) c++;
    for (int s = 0; s < 5; s++)
    {
      int64_t high = pos + seg, m = w[idx].next_multiple, wi = w[idx].wheel_index;
      for (; m < high; m += p * Wheel::next_multiple_factor(&wi))
      {
        sx_assert(m >= pos, "position inside the segment");
        sx_assert(m == p * (int64_t) (210 * k + c), "each multiple once and in order");
        do c++; while (!cop(c));
      }
      w[idx].set(m, wi);
      sx_assert(w[idx].next_multiple >= high, "resumes in a later segment");
      pos = high;
    }
    // nothing left out
    sx_assert(p * (int64_t) (210 * k + c) >= pos, "no multiple is left out");
  }
  sx_cover("end");
}
