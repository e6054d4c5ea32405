#ifndef MERCURY_MACROS_H
#define MERCURY_MACROS_H
#include "mercury.h"
#define hg_proc_void hg_proc_void_t
static inline hg_return_t hg_proc_void_t(hg_proc_t p, void *d) { (void)p; (void)d; return HG_SUCCESS; }
#define MERCURY_REGISTER(hg_class, func_name, in_struct_type_name, out_struct_type_name, rpc_cb) \
  HG_Register_name(hg_class, func_name, hg_proc_##in_struct_type_name, hg_proc_##out_struct_type_name, rpc_cb)
#endif
