#ifndef MERCURY_THREAD_H
#define MERCURY_THREAD_H
#include "mercury_config.h"
#include <pthread.h>
typedef pthread_t hg_thread_t;
typedef void *hg_thread_ret_t;
#define HG_THREAD_RETURN_TYPE hg_thread_ret_t
typedef HG_THREAD_RETURN_TYPE (*hg_thread_func_t)(void *);
void hg_thread_init(hg_thread_t *);
int hg_thread_create(hg_thread_t *, hg_thread_func_t, void *);
void hg_thread_exit(hg_thread_ret_t);
int hg_thread_join(hg_thread_t);
#endif
