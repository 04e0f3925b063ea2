// the iterator's cache limits divided by 1024, so that the memory it reserves stays small
#ifndef SX_CONFIG_HPP
#define SX_CONFIG_HPP
#include_next <primesieve/config.hpp>
namespace { namespace config { enum { SX_MIN_CACHE = MIN_CACHE_ITERATOR / 1024, SX_MAX_CACHE = MAX_CACHE_ITERATOR / 1024 }; } }
#define MIN_CACHE_ITERATOR SX_MIN_CACHE
#define MAX_CACHE_ITERATOR SX_MAX_CACHE
#endif
