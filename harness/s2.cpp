// C04: S2_trivial and S2_easy (both variants) against the definition of their classes of special leaves.
#include "symx.h"
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <primesum.hpp>
#include <S2.hpp>
#include <vector>
using namespace primesum;
typedef unsigned __int128 U;
typedef __int128 I;
std::vector<uint64_t> sxu::P;
namespace primesum {
int ideal_num_threads(int threads, int64_t, int64_t) { return threads; }
int64_t nth_prime(int64_t n) { return n < 2 ? (int64_t) sxu::P[0] : (int64_t) sxu::P[n - 1]; }
double get_time() { return 0; }
bool is_print() { return false; } bool print_result() { return false; } bool print_variables() { return false; }
void print(const std::string&) { } void print(int128_t, int64_t, int) { } void print(int128_t, int64_t, int64_t, int) { }
void print(int128_t, int64_t, int64_t, int64_t, double, int) { } void print(const std::string&, int256_t, double) { } void print_seconds(double) { }
int get_status_precision(int128_t) { return 0; }
#ifdef TRIVIAL
int256_t S2_easy(int128_t, int64_t, int64_t, int64_t, int) { return 0; }
#else
int256_t S2_trivial(int128_t, int64_t, int64_t, int64_t, int) { return 0; }
#endif
}
static void universe(int id)
{
  std::vector<uint64_t>& P = sxu::P;
  if (id < 10000) { sxu::dense((uint64_t) id); return; }
  static const uint64_t a[] = { 2, 3, 5, 7, 11, 13, 17, 41, 101, 211, 499, 503, 997, 1009, 1511, 2003, 4001, 5003, 9973, 10007, 0 };
  static const uint64_t b[] = { 2, 3, 5, 7, 11, 13, 101, 65537, 1000003, 2000003, 2100001, 3000017, 4000037, 6000011, 4294967291ull, 0 };
  static const uint64_t c[] = { 2, 3, 5, 7, 101, 131101, 4000037, 4294967291ull, 4294967311ull, 5000000029ull, 6000000001ull, 9000000001ull, 12000000007ull, 20000000033ull, 0 };
  static const uint64_t d[] = { 2, 3, 5, 7, 101, 1000003, 2147483659ull, 3000000019ull, 3500000011ull, 4000000007ull, 4294967291ull, 0 };
  const uint64_t* s = id == 10000 ? a : id == 10001 ? b : id == 10002 ? c : d; P.clear(); while (*s) P.push_back(*s++);
}
extern "C" void SX_ENTRY()
{
  universe((int) sx_param(0));
  uint64_t y = sx_concretize(sx_u64("y", (uint64_t) sx_param(1), (uint64_t) sx_param(2)));
  U x = sx_big((uint64_t) sx_param(4), (uint64_t) sx_param(3)) + sx_u128("offset", 0, (U) (uint64_t) sx_param(5));
  int threads = (int) sx_concretize(sx_u64("threads", 1, (uint64_t) sx_param(7)));
  sx_assume((U) y * y <= x); { U q = (U) (y + 1) * (y + 1); if (q < ((U) 1 << 127) / (y + 1)) sx_assume(x < q * (y + 1)); }
  sx_assume(x < (U) y << 61);
  const std::vector<uint64_t>& P = sxu::P; int np = 0; while (np < (int) P.size() && P[(size_t) np] <= y) np++;
  if (np < 1) sx_reject();
  int cmax = (int) sx_param(6); if (cmax > np) cmax = np;
  int c = (int) sx_concretize(sx_u64("c", 1, (uint64_t) cmax));
  uint64_t z = (uint64_t) (x / y);
  I want = 0;
  for (int i = c; i < np; i++)
  {
    U p = P[(size_t) i]; if (p * p <= y) continue;
    for (int j = i + 1; j < np; j++)
    {
      U q = P[(size_t) j];
#ifdef TRIVIAL
      if (p * p * q > x) want += (I) (p * q);                      // x / n < p: 1 is the only number left
#else
      if (p * p * q <= x && p * q * y > x) { I s = 1; for (int k = i; k < np; k++) { if (p * q * P[(size_t) k] > x) break; s += (I) P[(size_t) k]; } want += (I) (p * q) * s; }
#endif
    }
  }
#ifdef TRIVIAL
  int256_t got = S2_trivial((int128_t) x, (int64_t) y, (int64_t) z, c, threads);
#else
  int256_t got = S2_easy((int128_t) x, (int64_t) y, (int64_t) z, c, threads);
#endif
  sx_assert((I) (uint128_t) got == want && (uint64_t) (got >> 128) == 0, "sum over the special leaves of this class");
  sx_cover(want ? "sum" : "empty");
}
