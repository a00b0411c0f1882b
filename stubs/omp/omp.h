// Declarations of the OpenMP library functions; the parallel runtime of the harness defines them.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void *held; } omp_lock_t;
typedef struct { void *held; } omp_nest_lock_t;
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
void omp_set_nested(int);
double omp_get_wtime(void);
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
