// the number of primes to reserve memory for is only a hint: 64
#ifndef SX_PMATH_HPP
#define SX_PMATH_HPP
#include_next <primesieve/pmath.hpp>
namespace primesieve { inline std::size_t sx_reserve(uint64_t, uint64_t) { return 64; } }
#define primeCountApprox sx_reserve
#endif
