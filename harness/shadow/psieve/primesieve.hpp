// Stand-in for libprimesieve (whose own code is checked under C20-C24): serves the primes of a
// finite universe set up by the harness.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
namespace sxu {
  extern std::vector<uint64_t> P;                        // ascending
  static const uint64_t END = 0x7ffffffffffffff0ull;     // "next prime" after the last one
  inline void dense(uint64_t n)                          // all primes <= n
  { P.clear(); for (uint64_t i = 2; i <= n; i++) { bool p = true; for (uint64_t j = 2; j * j <= i; j++) if (i % j == 0) { p = false; break; } if (p) P.push_back(i); } }
  inline void list(const std::vector<uint64_t>& v) { P = v; }
}
namespace primesieve {
class iterator
{
public:
  iterator(uint64_t start = 0, uint64_t = 0) { skipto(start); }
  void skipto(uint64_t start, uint64_t = 0) { start_ = start; first_ = true; }
  uint64_t next_prime()
  {
    if (first_) { i_ = 0; while (i_ < (int64_t) sxu::P.size() && sxu::P[i_] <= start_) i_++; first_ = false; }
    else i_++;
    return i_ < (int64_t) sxu::P.size() ? sxu::P[i_] : sxu::END;
  }
  uint64_t prev_prime()
  {
    if (first_) { i_ = (int64_t) sxu::P.size() - 1; while (i_ >= 0 && sxu::P[i_] >= start_) i_--; first_ = false; }
    else i_--;
    return i_ >= 0 ? sxu::P[i_] : 0;
  }
private:
  uint64_t start_; int64_t i_; bool first_;
};
template <typename T> inline void generate_primes(uint64_t stop, std::vector<T>* v) { for (uint64_t p : sxu::P) if (p <= stop) v->push_back((T) p); else break; }
template <typename T> inline void generate_primes(uint64_t start, uint64_t stop, std::vector<T>* v) { for (uint64_t p : sxu::P) if (p > stop) break; else if (p >= start) v->push_back((T) p); }
template <typename T> inline void generate_n_primes(uint64_t n, std::vector<T>* v) { for (uint64_t i = 0; i < n && i < sxu::P.size(); i++) v->push_back((T) sxu::P[i]); }
inline uint64_t count_primes(uint64_t a, uint64_t b) { uint64_t n = 0; for (uint64_t p : sxu::P) { if (p > b) break; if (p >= a) n++; } return n; }
inline uint64_t nth_prime(int64_t n, uint64_t start = 0) { iterator it(start); uint64_t p = 0; while (n-- > 0) p = it.next_prime(); return p; }
inline int get_num_threads() { return 1; }
inline void set_num_threads(int) { }
inline void set_sieve_size(int) { }
inline std::string primesieve_version() { return "0"; }
}
