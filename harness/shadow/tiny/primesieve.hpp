// Stand-in for libprimesieve in prime_sum_tiny: one arbitrary number stands for the sum of the primes served.
#pragma once
#include <stdint.h>
#include <string>
namespace sxt { extern uint64_t start, stop, token; extern int threads, calls; }
namespace primesieve {
class iterator
{
  int i_ = 0; uint64_t hint_;
public:
  iterator(uint64_t start = 0, uint64_t hint = 0) : hint_(hint) { sxt::start = start; sxt::calls++; }
  uint64_t next_prime() { return i_++ == 0 ? sxt::token : sxt::stop + 1; }
};
inline void set_num_threads(int t) { sxt::threads = t; }
inline int get_num_threads() { return sxt::threads; }
inline std::string primesieve_version() { return "0"; }
}
