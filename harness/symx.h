// Harness interface. The symbolic executor interprets these calls; harness/replay.cpp
// gives them their native meaning (values read from a file) when a counterexample or a
// sampled path is replayed against natively compiled code.
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned __int128 sx_u128_t;
uint64_t sx_u64(const char* name, uint64_t lo, uint64_t hi);            // fresh symbolic value in [lo, hi]
sx_u128_t sx_u128(const char* name, sx_u128_t lo, sx_u128_t hi);
void sx_assume(bool);
void sx_assert(bool, const char* msg);
uint64_t sx_concretize(uint64_t);                                       // fork over all feasible values
void sx_observe(const char* name, uint64_t v);                          // compared between symbolic and native run
void sx_observe128(const char* name, sx_u128_t v);
int64_t sx_param(int i);                                                // concrete job parameter
void sx_cover(const char* tag);                                         // reachability witness
void sx_reject(void);
int sx_is_symbolic(uint64_t);
void sx_debug(const char* name, uint64_t v);
void sx_trace(const char*);
#ifdef __cplusplus
}
static inline sx_u128_t sx_big(uint64_t hi, uint64_t lo) { return ((sx_u128_t)hi << 64) | lo; }
#endif
