// C12: BitSieve and BinaryIndexedTree against the plain set of remaining numbers.
#include "symx.h"
#include <BitSieve.hpp>
#include <BinaryIndexedTree.hpp>
#include <SumBits.hpp>
#include <vector>
using namespace primesum;
typedef unsigned __int128 U;
typedef __int128 I;
static const int P[10] = { 0, 2, 3, 5, 7, 11, 13, 17, 19, 23 };

// Symbolic odd interval start below 2^61 in every residue class modulo 2*3*..*p_c (seed < 0), or in the
// classes with residues chosen by the seed except modulo prime number freeP, which is left open.
static int64_t lowSym(int c, int seed, int freeP, int* res)
{
  uint64_t m = 2; for (int i = 2; i <= c; i++) m *= P[i];
  for (int i = 2; i <= c; i++)
    if (seed < 0 || i == freeP) res[i] = (int) sx_concretize(sx_u64("residue", 0, P[i] - 1));
    else res[i] = (seed * 7 + i * 3 + seed / P[i]) % P[i];
  uint64_t r = 1; // the class
  uint64_t step = 2; for (int i = 2; i <= c; i++) { while ((int) (r % P[i]) != res[i]) r += step; step *= P[i]; }
  return (int64_t) (m * sx_u64("quotient", 0, (((uint64_t) 1 << 61) - m) / m) + r);
}
static bool inSet(int c, const int* res, int64_t pos) { for (int i = 2; i <= c; i++) if ((res[i] + pos) % P[i] == 0) return false; return true; }

static uint64_t rnd = 88172645463325252ull;
static uint32_t next() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return (uint32_t) (rnd >> 20); }

struct SymSet { std::vector<uint64_t> b; size_t size() const { return b.size(); } uint64_t operator[](size_t i) const { return b[i]; } };

extern "C" void SX_ENTRY()
{
  switch (sx_param(0))
  {
  case 0: // pre_sieve(c, low) leaves exactly the numbers coprime to the primes p_2..p_c (params: c, size, seed, free)
  {
    int c = (int) sx_param(1), size = (int) sx_param(2), res[10];
    int64_t low = lowSym(c, (int) sx_param(3), (int) sx_param(4), res);
    BitSieve s(size);
    s.pre_sieve(c, low);
    sx_assert(s.size() == (size_t) size, "size");
    for (int pos = 0; pos < size; pos += 2) sx_assert(s[pos] == inSet(c, res, pos), "pre-sieved bit");
    sx_cover("end"); break;
  }
  case 1: // sums over every sub-interval after pre-sieving and removals (params: c, size, seed, removals)
  {
    int c = (int) sx_param(1), size = (int) sx_param(2), res[10];
    int64_t low = lowSym(c, (int) sx_param(3), 0, res);
    BitSieve s(size);
    s.pre_sieve(c, low);
    std::vector<char> in(size, 0);
    for (int pos = 0; pos < size; pos += 2) in[pos] = inSet(c, res, pos);
    for (int k = 0; k < sx_param(4); k++) { int pos = next() % (size / 2) * 2; s.unset(pos); in[pos] = 0; sx_assert(!s[pos], "removed"); }
    if (sx_param(4) > 2) { int pos = next() % (size / 2) * 2; s.set(pos); in[pos] = 1; sx_assert(s[pos], "inserted"); }
    std::vector<I> cnt(size + 1, 0), off(size + 1, 0); // prefix counts and offset sums
    for (int pos = 0; pos < size; pos++) { cnt[pos + 1] = cnt[pos] + in[pos]; off[pos + 1] = off[pos] + (in[pos] ? pos : 0); }
    auto want = [&](int a, int b) { return (I) low * (cnt[b + 1] - cnt[a]) + (off[b + 1] - off[a]); };
    int step = (int) sx_param(5);
    for (int a = 0; a < size; a += (a % 128 < 3 || a % 128 > 124) ? 1 : step)
      for (int b = a; b < size; b += (b - a < 3 || b % 128 < 3 || b % 128 > 124) ? 1 : step)
        sx_assert(s.sum(low, a, b) == want(a, b), "sum of the numbers in [start, stop]");
    // forwards or backwards summation, also for an interval cut off by the limit
    for (int len = size - 1; len > 0; len -= len % 128 == 1 ? 37 : 41)
    {
      int64_t high = low + len; I all = len >= 1 ? want(0, len - 1) : 0;
      for (int a = 0; a <= len; a += 7)
        for (int b = a; b < len; b += (b - a < 2 || len - b < 2) ? 1 : 13)
          sx_assert(s.sum(a, b, low, high, a ? want(0, a - 1) : 0, all) == want(a, b), "sum counted forwards or backwards");
      sx_assert(s.sum(5, 4, low, high, 0, all) == 0, "empty interval");
    }
    sx_cover("end"); break;
  }
  case 2: // the 16-bit table: all words with high byte h
  {
    static SumBits t;
    uint64_t h = (uint64_t) sx_param(1), n = (uint64_t) sx_param(2);
    for (; n-- > 0; h++)
    {
      uint64_t x = h * 16 + sx_u64("nibble", 0, 15), want = 0;
      for (int i = 0; i < 16; i++) want += ((x >> i) & 1) * 2 * i;
      sx_assert(t[x] == want, "sum of bit indexes");
    }
    sx_cover("end"); break;
  }
  case 3: // tree, any subset of the interval (params: n, low)
  {
    int n = (int) sx_param(1); int64_t low = sx_param(2);
    SymSet s; for (int i = 0; i < 2 * n; i++) s.b.push_back(i % 2 ? 0 : sx_u64("bit", 0, 1));
    BinaryIndexedTree t; t.init(s, low);
    I want = 0;
    for (int i = 0; i < 2 * n; i++) { want += (I) (low + i) * (I) s.b[i]; sx_assert(t.sum(i) == want, "prefix sum for any subset"); }
    sx_cover("end"); break;
  }
  case 4: // tree, any interval start, removals at symbolic positions (params: n, removals, seed); reused for a second interval
  {
    int n = (int) sx_param(1); BinaryIndexedTree t;
    for (int round = 0; round < 2; round++)
    {
      if (round) n = n > 3 ? n - 2 : n + 1;
      int64_t low = (int64_t) sx_u64("half", 0, ((uint64_t) 1 << 60) - 1) * 2 + 1;
      SymSet s; for (int i = 0; i < 2 * n; i++) s.b.push_back(i % 2 ? 0 : sx_param(3) ? next() % 4 != 0 : 1);
      t.init(s, low);
      for (int k = 0; k < (round ? 1 : sx_param(2)); k++)
      {
        int pos = (int) sx_concretize(sx_u64("pos", 0, n - 1)) * 2;
        if (s.b[pos]) { s.b[pos] = 0; t.update(low + pos, low); }
      }
      I cnt = 0, off = 0;
      for (int i = 0; i < 2 * n; i++) { cnt += s.b[i]; off += s.b[i] ? i : 0; sx_assert(t.sum(i) == (I) low * cnt + off, "prefix sum after removals"); }
    }
    sx_cover("end"); break;
  }
  case 5: // tree built from a BitSieve agrees with the BitSieve during removals (params: size, c, removals)
  {
    int size = (int) sx_param(1), c = (int) sx_param(2), res[10];
    int64_t low = lowSym(c, (int) sx_param(4), 0, res);
    BitSieve s(size); s.pre_sieve(c, low);
    BinaryIndexedTree t; t.init(s, low);
    for (int k = 0; k <= sx_param(3); k++)
    {
      for (int i = 0; i < size; i++) sx_assert(t.sum(i) == s.sum(low, 0, i), "bit sieve and tree agree");
      int pos = k ? next() % (size / 2) * 2 : (int) sx_concretize(sx_u64("pos", 0, size / 2 - 1)) * 2;
      if (s[pos]) { s.unset(pos); t.update(low + pos, low); }
    }
    sx_cover("end"); break;
  }
  }
}
