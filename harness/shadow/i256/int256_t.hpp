// Stand-in for the 256-bit integer type: 128 bits. For harnesses whose values stay below 2^127 by construction
// (the real type is checked under C07).
#pragma once
#include <cassert>
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <string>
#include <ostream>
#include <limits>
#include <type_traits>
#include <utility>
#include <int128_t.hpp>
namespace primesum {
using int256_t = __int128_t;
template <typename T> struct next_larger_type { typedef typename std::conditional<std::is_same<T, int64_t>::value, int128_t, typename std::conditional<std::is_same<T, uint64_t>::value, uint128_t, int256_t>::type>::type type; };
}
