// Stand-in for the OpenMP runtime's query functions; the harness decides how many threads there are.
#pragma once
namespace sxo { extern int max_threads; }
inline int omp_get_max_threads() { return sxo::max_threads; }
inline int omp_get_num_threads() { return 1; }
inline int omp_get_thread_num() { return 0; }
struct omp_lock_t { int v; };
inline void omp_init_lock(omp_lock_t*) { } inline void omp_destroy_lock(omp_lock_t*) { } inline void omp_set_lock(omp_lock_t*) { } inline void omp_unset_lock(omp_lock_t*) { } inline int omp_test_lock(omp_lock_t*) { return 1; }
