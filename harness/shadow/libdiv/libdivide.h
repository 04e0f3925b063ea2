// Stand-in for libdivide (checked under C10): exact division.
#pragma once
#include <stdint.h>
namespace libdivide {
template <typename T> class branchfree_divider { public: branchfree_divider() : d_(1) { } branchfree_divider(T d) : d_(d) { } T perform_divide(T n) const { return n / d_; } T d_; };
template <typename T> class divider { public: divider() : d_(1) { } divider(T d) : d_(d) { } T perform_divide(T n) const { return n / d_; } T d_; };
template <typename T> inline T operator/(T n, const branchfree_divider<T>& d) { return d.perform_divide(n); }
template <typename T> inline T operator/(T n, const divider<T>& d) { return d.perform_divide(n); }
}
