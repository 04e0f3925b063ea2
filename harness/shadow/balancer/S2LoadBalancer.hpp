// Stand-in for the load balancer (checked under C14): any legal schedule.
#pragma once
#include <aligned_vector.hpp>
#include <int128_t.hpp>
#include <stdint.h>
#include "symx.h"
namespace sxb { extern int budget; }
namespace primesum {
class S2LoadBalancer
{
public:
  S2LoadBalancer(int128_t, int64_t, int64_t, int64_t) { }
  int64_t get_min_segment_size() const { return (int64_t) 512 << sx_concretize(sx_u64("min_size", 0, 1)); }
  double get_rsd() const { return 40; }
  void update(int64_t, int64_t, int64_t* segment_size, int64_t* segments_per_thread, aligned_vector<double>&)
  {
    if (sxb::budget <= 0) return; sxb::budget--;
    static const int64_t spt[3] = { 1, 2, 5 };
    *segment_size = (int64_t) 512 << sx_concretize(sx_u64("size", 0, 2)); *segments_per_thread = spt[sx_concretize(sx_u64("segments", 0, 2))];
  }
};
}
