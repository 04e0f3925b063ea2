// C06: phi_sum (128- and 256-bit form), phi and PhiTiny against closed forms / their definition.
#include "symx.h"
#include <primesieve.hpp>
#include <primesum-internal.hpp>
#include <PhiTiny.hpp>
#include <vector>
using namespace primesum;
typedef unsigned __int128 U;
std::vector<uint64_t> sxu::P;
namespace primesum { int ideal_num_threads(int threads, int64_t, int64_t) { return threads; } }
static const int pr[11] = { 0, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29 };
static bool cop(uint64_t n, int a) { for (int i = 1; i <= a; i++) if (n % pr[i] == 0) return false; return true; }
extern "C" void SX_ENTRY()
{
  int kind = (int) sx_param(0), a = (int) sx_param(1);
  U pp = 1; int64_t tot = 1; for (int i = 1; i <= a && i <= 6; i++) { pp *= pr[i]; tot *= pr[i] - 1; }
  switch (kind)
  {
  case 0: // phi_sum(int64_t) for every x: x = pp * q + r, q = 2 * h + e
  case 1: // the 256-bit form, for all x in (2^63, 1.37 * 2^63] (sums below 2^127: compiled with a 128-bit stand-in for int256_t)
  {
    U top = kind ? ((U) 11 << 60) - 1 : ((U) 1 << 63) - 1, bot = kind ? (U) 1 << 63 : 0;
    uint64_t r0 = (uint64_t) sx_param(2), r1 = (uint64_t) sx_param(3);
    uint64_t r = sx_concretize(sx_u64("class", r0, r1)), e = r / (uint64_t) pp; r %= (uint64_t) pp;
    // pieces of the range of x between the points where a quotient x / d passes the width of a faster division
    U cut[200]; int nc = 0; cut[nc++] = bot;
    if (!kind) cut[nc++] = 16 * pp;
    for (int m = 0; m < (1 << a); m++) { U d = 1; for (int i = 0; i < a; i++) if (m >> i & 1) d *= pr[i + 1]; U t = ((U) 1 << (kind ? 63 : 32)) * d; if (t > bot && t < top) cut[nc++] = t; }
    for (int i = 1; i < nc; i++) for (int j = i; j > 0 && cut[j] < cut[j - 1]; j--) { U t = cut[j]; cut[j] = cut[j - 1]; cut[j - 1] = t; }
    cut[nc] = top + 1;
    int k0 = (int) sx_param(4), k1 = (int) sx_param(5); if (k0 > 2 * nc - 2) k0 = 2 * nc - 2; if (k1 > 2 * nc - 2) k1 = 2 * nc - 2;
    int k = (int) sx_concretize(sx_u64("piece", (uint64_t) k0, (uint64_t) k1));
    U lo = cut[k / 2] / (2 * pp) + 1, hi = cut[k / 2 + 1] / (2 * pp); if (k & 1) lo = hi; else hi--;
    if (kind == 0 && k == 0) { lo = 0; }
    if (lo > hi) sx_reject();
    U h = hi < 10 ? (U) sx_concretize(sx_u64("block", (uint64_t) lo, (uint64_t) hi)) : (U) sx_u64("block", (uint64_t) lo, (uint64_t) hi), q = 2 * h + e, x = pp * q + r;
    int64_t Sp = 0, Sr = 0, tr = 0;
    for (uint64_t n = 1; n <= (uint64_t) pp; n++) if (cop(n, a)) { Sp += (int64_t) n; if (n <= r) { Sr += (int64_t) n; tr++; } }
    // q(q-1)/2 = h(2h-1) + 2he
    U half = 2 * h * h - h + 2 * h * e, want = pp * tot * half + q * (U) Sp + pp * q * (U) tr + (U) Sr;
    U got = kind ? (U) (uint128_t) phi_sum((int128_t) x, a) : (U) phi_sum((int64_t) x, a);
    sx_assert(got == want, "sum of the numbers <= x coprime to the first a primes");
    if (!kind) { int256_t g2 = phi_sum((int128_t) (int64_t) x, a); sx_assert((U) (uint128_t) g2 == want, "the 256-bit form agrees on 64-bit arguments"); }
    sx_cover("end"); break;
  }
  case 2: // negative and zero arguments, every prefix length
  {
    int64_t x = (int64_t) sx_u64("x", 0, ((uint64_t) 1 << 63) - 1); a = (int) sx_concretize(sx_u64("a", 0, 20)); x = -x; sxu::dense(100);
    sx_assert(phi_sum(x, a) == 0, "no numbers"); sx_assert(phi((int64_t) x, a, 1) == 0, "no numbers");
    int256_t g = phi_sum((int128_t) x, a); sx_assert((uint64_t) g == 0 && (uint64_t) (g >> 64) == 0, "no numbers (256-bit form)");
    sx_cover("end"); break;
  }
  case 3: // longer prefixes over the real primes: every small x
  {
    sxu::dense((uint64_t) sx_param(4)); uint64_t x = sx_concretize(sx_u64("x", (uint64_t) sx_param(2), (uint64_t) sx_param(3)));
    a = (int) sx_concretize(sx_u64("a", 0, (uint64_t) sx_param(1)));
    int64_t s = 0, c = 0; for (uint64_t n = 1; n <= x; n++) { bool in = true; for (int i = 0; i < a && sxu::P[i] <= n; i++) if (n % sxu::P[i] == 0) { in = false; break; } if (in) { s += (int64_t) n; c++; } }
    sx_assert(phi_sum((int64_t) x, a) == s, "sum of the numbers <= x free of the first a primes");
    sx_assert(phi((int64_t) x, a, (int) sx_param(5)) == c, "count of the numbers <= x free of the first a primes");
    sx_cover("end"); break;
  }
  case 4: // longer prefixes, any x in a window: an independent recursion over the whole tree as the oracle
  {
    sxu::dense(200); U x = sx_big((uint64_t) sx_param(3), (uint64_t) sx_param(2)) + (U) sx_concretize(sx_u64("offset", 0, (uint64_t) sx_param(4)));
    // inclusion-exclusion over the squarefree products of the first a primes
    U d[1 << 12]; int sg[1 << 12], n = 1; d[0] = 1; sg[0] = 1; for (int i = 0; i < a; i++) { int m = n; for (int j = 0; j < m; j++) { d[n] = d[j] * sxu::P[i]; sg[n] = -sg[j]; n++; } }
    int256_t want = 0; U cnt = 0;
    for (int j = 0; j < n; j++) { U m = x / d[j]; U t = m & 1 ? (m + 1) / 2 : m / 2, u = m & 1 ? m : m + 1; int256_t f = int256_t((int128_t) t) * (int128_t) u * (int128_t) d[j]; if (sg[j] > 0) { want += f; cnt += m; } else { want -= f; cnt -= m; } }
    int256_t got = x >> 63 ? phi_sum((int128_t) x, a) : int256_t(phi_sum((int64_t) x, a));
    sx_assert(got == want, "sum of the numbers <= x free of the first a primes");
    if (a <= 6) sx_assert((U) phi_tiny((int128_t) x, a) == cnt, "count of the numbers <= x coprime to the first a primes");
    sx_cover("end"); break;
  }
  case 5: // PhiTiny::phi for every x
  {
    uint64_t r = sx_concretize(sx_u64("class", (uint64_t) sx_param(2), (uint64_t) sx_param(3)));
    uint64_t tr = 0; for (uint64_t n = 1; n <= r; n++) tr += cop(n, a);
    int w = (int) sx_param(4);
    if (w == 0) { uint32_t q = (uint32_t) sx_u64("q", 0, (((uint64_t) 1 << 32) - 1) / (uint64_t) pp - 1); int64_t x = (int64_t) ((uint64_t) pp * q + r); sx_assert(phi_tiny(x, a) == (int64_t) ((uint64_t) q * tot + tr), "phi(x, a), 32-bit x"); sx_assert(phi(x, a, 1) == (x < 1 ? 0 : (int64_t) ((uint64_t) q * tot + tr)), "phi(x, a)"); }
    else if (w == 1) { uint64_t q = sx_u64("q", 0, (((uint64_t) 1 << 63) - 1) / (uint64_t) pp - 1); int64_t x = (int64_t) ((uint64_t) pp * q + r); sx_assert(phi_tiny(x, a) == (int64_t) (q * (uint64_t) tot + tr), "phi(x, a), 64-bit x"); sx_assert(phi(x, a, 1) == (x < 1 ? 0 : a > x ? 1 : (int64_t) (q * (uint64_t) tot + tr)), "phi(x, a)"); }
    else { U q = sx_u128("q", 0, (((U) 1 << 120) - 1) / pp - 1); int128_t x = (int128_t) (pp * q + r); sx_assert(phi_tiny(x, a) == (int128_t) (q * (U) tot + tr), "phi(x, a), 128-bit x"); }
    sx_cover("end"); break;
  }
  }
}
