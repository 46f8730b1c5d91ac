// OpenMP API for builds in which the pragmas are ignored (one thread).
#ifndef SHIM_SERIAL_OMP_H
#define SHIM_SERIAL_OMP_H
#include <ctime>
inline int omp_get_max_threads() { return 1; }
inline int omp_get_num_threads() { return 1; }
inline int omp_get_thread_num() { return 0; }
inline int omp_get_num_procs() { return 1; }
inline void omp_set_num_threads(int) {}
inline int omp_in_parallel() { return 0; }
inline double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
#endif
