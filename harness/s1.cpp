// C03: S1(x, y, c) against its definition; the partial sieve sum phi_sum (C06) is replaced by a
// function that depends on both of its arguments, except in kind 3.
#include "symx.h"
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <S1.hpp>
#include <vector>
using namespace primesum;
typedef unsigned __int128 U;
typedef __int128 I;
std::vector<uint64_t> sxu::P;
namespace primesum {
int ideal_num_threads(int threads, int64_t, int64_t) { return threads; }
double get_time() { return 0; }
bool is_print() { return false; } bool print_result() { return false; } bool print_variables() { return false; }
void print(const std::string&) { } void print(int128_t, int64_t, int) { } void print(int128_t, int64_t, int64_t, int) { }
void print(int128_t, int64_t, int64_t, int64_t, double, int) { } void print(const std::string&, int256_t, double) { } void print_seconds(double) { }
#ifndef REALPHI
static I scale = 1;
int128_t phi_sum(int64_t x, int64_t a) { return (I) x * scale * (a + 1); }
int256_t phi_sum(int128_t x, int64_t a) { return int256_t(x) * (int128_t) (scale * (a + 1)); }
#endif
}
extern "C" void SX_ENTRY()
{
  int kind = (int) sx_param(0), uni = (int) sx_param(1), c = (int) sx_concretize(sx_u64("c", (uint64_t) sx_param(7), (uint64_t) sx_param(2)));
  std::vector<uint64_t>& P = sxu::P;
  if (uni == 0) sxu::dense(100);
  else if (uni == 1) P = { 2, 3, 11, 101, 65537, 1000003, 3000000019ull, 4294967291ull };
  else P = { 2, 3, 101, 65537, 4294967291ull, 4294967311ull, 1099511627791ull };
#ifndef REALPHI
  uint64_t y = sx_u64("y", (uint64_t) sx_param(3), (uint64_t) sx_param(4));
  I x; I fac = 1;
  if (kind == 0) { scale = (I) 1 << 40; x = (I) sx_u64("x", 1, ((uint64_t) 1 << 63) - 1); fac = scale * (c + 1); }
  else { x = (I) sx_u128("x", kind == 1 ? (U) 1 << 63 : 1, (U) 1 << 110); fac = c + 1; }
  // all squarefree products <= y of the primes above the c-th, without the recursion
  I want = x * fac; std::vector<uint64_t> n(1, 1); std::vector<int> mu(1, 1);
  for (size_t i = (size_t) c; i < P.size(); i++) { if (P[i] > y) break; size_t m = n.size(); for (size_t j = 0; j < m; j++) { U q = (U) n[j] * P[i]; if (q > y) continue; n.push_back((uint64_t) q); mu.push_back(-mu[j]); want += (I) mu.back() * ((I) q * (x / (I) q) * fac); } }
  int256_t got = S1((int128_t) x, (int64_t) y, c, 1 + (int) (sx_param(5)));
  sx_assert((I) (uint128_t) got == want, "signed sum over the ordinary leaves");
#else
  // real phi_sum, every x and y in a window
  uint64_t y = sx_concretize(sx_u64("y", (uint64_t) sx_param(3), (uint64_t) sx_param(4))); if (c && (uint64_t) sxu::P[c - 1] > y) sx_reject();
  uint64_t x = (uint64_t) sx_param(5) + sx_concretize(sx_u64("x", 0, (uint64_t) sx_param(6)));
  I want = 0;
  for (uint64_t n = 1; n <= y; n++)
  {
    int mu = 1; uint64_t t = n; for (size_t i = 0; i < P.size() && P[i] <= t; i++) if (t % P[i] == 0) { t /= P[i]; if ((int) i < c) mu = 0; mu = -mu; if (t % P[i] == 0) { mu = 0; break; } }
    if (!mu) continue; I s = 0; for (uint64_t m = 1; m <= x / n; m++) { bool in = true; for (int i = 0; i < c; i++) if (m % P[i] == 0) in = false; if (in) s += m; } want += mu * s * (I) n;
  }
  int256_t got = S1((int128_t) x, (int64_t) y, c, 2); sx_assert(got == int256_t(want), "signed sum over the ordinary leaves");
#endif
  sx_cover("end");
}
