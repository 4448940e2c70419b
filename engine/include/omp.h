/* the OpenMP entry points, for the clang front end (gcc's own omp.h is not on its path) */
#ifndef VP_OMP_H
#define VP_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_dynamic(void);
int omp_get_nested(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
void omp_set_nested(int);
double omp_get_wtime(void);
typedef struct { int x[4]; } omp_lock_t;
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
#endif
