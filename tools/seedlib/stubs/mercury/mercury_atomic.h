#ifndef MERCURY_ATOMIC_H
#define MERCURY_ATOMIC_H
#include "mercury_config.h"
typedef int32_t hg_atomic_int32_t;
typedef int64_t hg_atomic_int64_t;
#define HG_ATOMIC_VAR_INIT(x) (x)
void hg_atomic_init32(hg_atomic_int32_t *, int32_t);
void hg_atomic_set32(hg_atomic_int32_t *, int32_t);
int32_t hg_atomic_get32(hg_atomic_int32_t *);
int32_t hg_atomic_incr32(hg_atomic_int32_t *);
int32_t hg_atomic_decr32(hg_atomic_int32_t *);
bool hg_atomic_cas32(hg_atomic_int32_t *, int32_t, int32_t);
#endif
