/* declarations only: lets clang parse the bindings (the build uses gcc's own omp.h) */
#ifndef SA_OMP_H
#define SA_OMP_H
extern "C" {
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
void omp_set_num_threads(int);
int omp_get_initial_device(void);
int omp_get_default_device(void);
int omp_get_num_devices(void);
}
#endif
