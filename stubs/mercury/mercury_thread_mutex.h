#ifndef MERCURY_THREAD_MUTEX_H
#define MERCURY_THREAD_MUTEX_H
#include "mercury_config.h"
#include <pthread.h>
typedef pthread_mutex_t hg_thread_mutex_t;
#define HG_THREAD_MUTEX_INITIALIZER PTHREAD_MUTEX_INITIALIZER
int hg_thread_mutex_init(hg_thread_mutex_t *);
int hg_thread_mutex_destroy(hg_thread_mutex_t *);
int hg_thread_mutex_lock(hg_thread_mutex_t *);
int hg_thread_mutex_try_lock(hg_thread_mutex_t *);
int hg_thread_mutex_unlock(hg_thread_mutex_t *);
#endif
