// Stand-in for the prime count table (checked under C11): counts in the finite universe.
#pragma once
#include <stdint.h>
#include <cassert>
#include <vector>
#include <primesieve.hpp>
#include "symx.h"
namespace primesum {
class PiTable
{
public:
  PiTable(uint64_t max) : max_(max) { }
  int64_t operator[](uint64_t n) const { sx_assert(n <= max_, "index within the prime count table"); int64_t c = 0; for (uint64_t p : sxu::P) { if (p > n) break; c++; } return c; }
  int64_t size() const { return (int64_t) max_ + 1; }
private:
  uint64_t max_;
};
}
