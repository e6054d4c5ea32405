/* single-threaded stand-ins for the Mercury atomics and mutexes */
void hg_atomic_init32(hg_atomic_int32_t *p, int32_t v){*p=v;}
void hg_atomic_set32(hg_atomic_int32_t *p, int32_t v){*p=v;}
int32_t hg_atomic_get32(hg_atomic_int32_t *p){return *p;}
int32_t hg_atomic_incr32(hg_atomic_int32_t *p){return ++*p;}
int32_t hg_atomic_decr32(hg_atomic_int32_t *p){return --*p;}
int hg_thread_mutex_init(hg_thread_mutex_t *m){return 0;}
int hg_thread_mutex_destroy(hg_thread_mutex_t *m){return 0;}
int hg_thread_mutex_lock(hg_thread_mutex_t *m){return 0;}
int hg_thread_mutex_unlock(hg_thread_mutex_t *m){return 0;}
