/* Stand-in for <omp.h>: the OpenMP runtime of the symbolic build is engine/sxomp.cpp. */
#ifndef SX_OMP_H
#define SX_OMP_H
typedef struct { int v; } omp_lock_t;
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void);
void omp_set_num_threads(int); void omp_set_dynamic(int); int omp_get_num_procs(void); int omp_in_parallel(void);
double omp_get_wtime(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*);
#endif
