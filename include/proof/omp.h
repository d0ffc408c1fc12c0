// OpenMP runtime as seen by the proof build: the pragmas are ignored (one thread), the queries answer any positive number.
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
#include <vc.h>
static inline int omp_get_num_threads() { return (int)vc_i("threads", 1, 1 << 16); }
static inline int omp_get_max_threads() { return (int)vc_i("threads", 1, 1 << 16); }
static inline int omp_get_thread_num() { return 0; }
static inline void omp_set_num_threads(int) {}
#endif
