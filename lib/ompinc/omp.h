/* Declarations of the OpenMP runtime routines, for clang's analysis of the openmp flavour (this sandbox has no
   omp.h that clang accepts). */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_in_parallel(void);
int omp_get_num_procs(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
