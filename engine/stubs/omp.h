/* Minimal declarations of the OpenMP runtime API, for analysis only. */
#ifndef VERIF_OMP_H_
#define VERIF_OMP_H_
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char x_[8]; } omp_lock_t;
typedef struct { unsigned char x_[16]; } omp_nest_lock_t;
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_level(void);
int omp_get_max_active_levels(void);
void omp_set_max_active_levels(int);
void omp_set_num_threads(int);
void omp_set_nested(int);
void omp_set_dynamic(int);
double omp_get_wtime(void);
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
