// OpenMP API used by the code under test; implemented in rt/rt.cpp.
#ifndef VP_OMP_H
#define VP_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void); int omp_get_num_threads(void); int omp_get_thread_num(void); void omp_set_num_threads(int); int omp_get_nested(void); void omp_set_nested(int); int omp_in_parallel(void); double omp_get_wtime(void); int omp_get_num_procs(void); int omp_get_max_active_levels(void); void omp_set_dynamic(int);
typedef struct { int v; } omp_lock_t;
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
