#ifndef MERCURY_PROC_STRING_H
#define MERCURY_PROC_STRING_H
#include "mercury.h"
typedef const char *hg_const_string_t;
typedef char *hg_string_t;
hg_return_t hg_proc_hg_const_string_t(hg_proc_t proc, void *data);
hg_return_t hg_proc_hg_string_t(hg_proc_t proc, void *data);
#endif
