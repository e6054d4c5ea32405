#ifndef MERCURY_REQUEST_H
#define MERCURY_REQUEST_H
#include "mercury_config.h"
typedef struct hg_request hg_request_t;
#endif
