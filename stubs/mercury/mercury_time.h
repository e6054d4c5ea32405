#ifndef MERCURY_TIME_H
#define MERCURY_TIME_H
#include "mercury_config.h"
#include <time.h>
typedef struct timespec hg_time_t;
int hg_time_get_current(hg_time_t *);
double hg_time_to_double(hg_time_t);
hg_time_t hg_time_subtract(hg_time_t, hg_time_t);
#endif
