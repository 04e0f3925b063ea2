// C02: P2(x, y) against its definition over a finite universe of primes, for every timing of the load balancing.
#include "symx.h"
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <vector>
using namespace primesum;
typedef unsigned __int128 U;
std::vector<uint64_t> sxu::P;
static int timed = 0, printing = 0;
namespace primesum {
// the real prime count and prime sum are checked on their own (C17): here they come from the universe
int64_t pi_legendre(int64_t x, int) { int64_t n = 0; for (uint64_t p : sxu::P) if ((int64_t) p <= x) n++; return n; }
int64_t pi_legendre(int64_t x) { return pi_legendre(x, 1); }
int128_t prime_sum_tiny(int64_t x) { int128_t n = 0; for (uint64_t p : sxu::P) if ((int64_t) p <= x) n += p; return n; }
double get_time() // any clock: each reading is 0, 59, 60 or 1000 seconds after the previous one while the budget lasts
{ static double t = 0; if (timed > 0) { timed--; static const double step[3] = { 0, 60, 1000 }; t += step[sx_concretize(sx_u64("clock", 0, 2))]; } return t; }
bool is_print() { return false; } bool print_result() { return false; } bool print_variables() { return false; }
void print(const std::string&) { } void print(int128_t, int64_t, int) { } void print(int128_t, int64_t, int64_t, int) { }
void print(int128_t, int64_t, int64_t, int64_t, double, int) { } void print(const std::string&, int256_t, double) { } void print_seconds(double) { }
int get_status_precision(int128_t) { return 0; }
}
static void universe(int id, U x)
{
  std::vector<uint64_t>& P = sxu::P; P.clear();
  if (id == 0) { sxu::dense(450); return; }
  if (id == 1) { P = { 2, 3, 5, 7, 997, 1009, 1013, 30011, 100003, 440009, 447001, 450029, 1000003, 8388593, 8388617, 16777213, 16777259, 33554393, 67108859, 99999989, 134217689, 180000017, 199999991 }; return; }
  if (id == 2) { // wide spread around the square root and the quotient limit of a large x: r = 2^(bits/2)
    int b = (int) sx_param(5); uint64_t y = (uint64_t) sx_param(1);
    P = { 2, 3, 5, y - 1, y + 1, y + 7 };
    uint64_t r = (uint64_t) 1 << (b / 2); if (b & 1) r += r / 5 * 2;
    for (uint64_t v : { r / 3, r - 11, r + 1, r + 13 }) if (v > P.back()) P.push_back(v);
    for (uint64_t d : { y + 1, y + 7, r / 3, r - 11 }) { uint64_t q = (uint64_t) (x / d); for (uint64_t v : { q - 1, q + 4 }) { bool dup = false; for (uint64_t e : P) dup |= e == v; if (!dup) P.push_back(v); } }
    for (size_t i = 1; i < P.size(); i++) for (size_t j = i; j > 0 && P[j] < P[j - 1]; j--) { uint64_t t = P[j]; P[j] = P[j - 1]; P[j - 1] = t; }
  }
}
extern "C" void SX_ENTRY()
{
  int id = (int) sx_param(0); int64_t y = sx_param(1); int tmax = (int) sx_param(2); int budget = (int) sx_param(3);
  U w = (U) (uint64_t) sx_param(4), x0; int b = (int) sx_param(5);
  if (id == 0 || id == 1) x0 = (U) sx_param(6); else x0 = ((U) 1 << b) + (U) (__int128) sx_param(6);
  universe(id, x0);
  U x = sx_u128("x", x0, x0 + w);
  if (id == 0) y = (int64_t) sx_concretize(sx_u64("y", 1, (uint64_t) y));
  int threads = (int) sx_concretize(sx_u64("threads", 1, tmax));
  timed = budget;
  U want = 0;
  for (uint64_t p : sxu::P) { if ((int64_t) p <= y) continue; if ((U) p * p > x) break; for (uint64_t q : sxu::P) if (q >= p) { if ((U) p * q > x) break; want += (U) p * q; } }
  int256_t got = P2((int128_t) x, y, threads);
  sx_assert((U) (uint128_t) got == want && (uint64_t) (got >> 128) == 0, "sum of the numbers <= x with exactly two prime factors above y");
  sx_cover(want ? "sum" : "empty");
}
