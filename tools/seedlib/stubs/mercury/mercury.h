#ifndef MERCURY_H
#define MERCURY_H
#include "mercury_config.h"
typedef enum hg_return {
  HG_SUCCESS = 0, HG_PERMISSION, HG_NOENTRY, HG_INTERRUPT, HG_AGAIN, HG_NOMEM, HG_ACCESS, HG_FAULT, HG_BUSY,
  HG_EXIST, HG_NODEV, HG_INVALID_ARG, HG_PROTOCOL_ERROR, HG_OVERFLOW, HG_MSGSIZE, HG_PROTONOSUPPORT,
  HG_OPNOTSUPPORTED, HG_ADDRINUSE, HG_ADDRNOTAVAIL, HG_HOSTUNREACH, HG_TIMEOUT, HG_CANCELED, HG_CHECKSUM_ERROR,
  HG_NA_ERROR, HG_OTHER_ERROR, HG_RETURN_MAX } hg_return_t;
#define HG_NOMEM_ERROR HG_NOMEM
#define HG_INVALID_PARAM HG_INVALID_ARG
typedef struct hg_class hg_class_t;
typedef struct hg_context hg_context_t;
typedef struct hg_addr *hg_addr_t;
typedef struct hg_handle *hg_handle_t;
typedef struct hg_bulk *hg_bulk_t;
typedef struct hg_op_id *hg_op_id_t;
typedef struct hg_proc *hg_proc_t;
typedef uint64_t hg_id_t;
typedef uint64_t hg_size_t;
#define HG_HANDLE_NULL ((hg_handle_t)0)
#define HG_ADDR_NULL ((hg_addr_t)0)
#define HG_BULK_NULL ((hg_bulk_t)0)
#define HG_OP_ID_NULL ((hg_op_id_t)0)
#define HG_OP_ID_IGNORE ((hg_op_id_t *)1)
#define HG_MAX_IDLE_TIME (3600 * 1000)
#define HG_BULK_READ_ONLY 1
#define HG_BULK_WRITE_ONLY 2
#define HG_BULK_READWRITE 3
#define NA_NO_BLOCK 1
#define NA_TRUE 1
#define NA_FALSE 0
typedef enum { HG_BULK_PUSH, HG_BULK_PULL } hg_bulk_op_t;
typedef enum { HG_CB_LOOKUP, HG_CB_FORWARD, HG_CB_RESPOND, HG_CB_BULK } hg_cb_type_t;
typedef enum { HG_UNDEFINED, HG_ENCODE, HG_DECODE, HG_FREE } hg_proc_op_t;
struct na_init_info { const char *ip_subnet; const char *auth_key; size_t max_unexpected_size; size_t max_expected_size;
  uint8_t progress_mode; uint8_t addr_format; uint8_t max_contexts; uint8_t thread_mode; bool request_mem_device; };
struct hg_init_info { struct na_init_info na_init_info; void *na_class; uint32_t request_post_init; uint32_t request_post_incr;
  bool auto_sm; const char *sm_info_string; bool no_bulk_eager; bool no_loopback; bool stats; };
struct hg_info { hg_class_t *hg_class; hg_context_t *context; hg_addr_t addr; hg_id_t id; uint8_t context_id; };
struct hg_cb_info_lookup { hg_addr_t addr; };
struct hg_cb_info_forward { hg_handle_t handle; };
struct hg_cb_info_respond { hg_handle_t handle; };
struct hg_cb_info_bulk { hg_handle_t origin_handle; hg_bulk_op_t op; hg_bulk_t local_handle; hg_bulk_t origin_handle2; hg_size_t size; };
struct hg_cb_info { union { struct hg_cb_info_lookup lookup; struct hg_cb_info_forward forward; struct hg_cb_info_respond respond; struct hg_cb_info_bulk bulk; } info;
  void *arg; hg_cb_type_t type; hg_return_t ret; };
typedef hg_return_t (*hg_rpc_cb_t)(hg_handle_t handle);
typedef hg_return_t (*hg_cb_t)(const struct hg_cb_info *callback_info);
typedef hg_return_t (*hg_proc_cb_t)(hg_proc_t proc, void *data);
hg_return_t HG_Version_get(unsigned int *, unsigned int *, unsigned int *);
const char *HG_Error_to_string(hg_return_t);
hg_class_t *HG_Init(const char *, uint8_t);
hg_class_t *HG_Init_opt(const char *, uint8_t, const struct hg_init_info *);
hg_return_t HG_Finalize(hg_class_t *);
void HG_Cleanup(void);
hg_return_t HG_Class_set_handle_create_callback(hg_class_t *, hg_return_t (*)(hg_handle_t, void *), void *);
hg_context_t *HG_Context_create(hg_class_t *);
hg_return_t HG_Context_destroy(hg_context_t *);
hg_class_t *HG_Context_get_class(const hg_context_t *);
hg_id_t HG_Register_name(hg_class_t *, const char *, hg_proc_cb_t, hg_proc_cb_t, hg_rpc_cb_t);
hg_return_t HG_Registered_disable_response(hg_class_t *, hg_id_t, uint8_t);
hg_return_t HG_Addr_lookup(hg_context_t *, hg_cb_t, void *, const char *, hg_op_id_t *);
hg_return_t HG_Addr_lookup1(hg_context_t *, hg_cb_t, void *, const char *, hg_op_id_t *);
hg_return_t HG_Addr_lookup2(hg_class_t *, const char *, hg_addr_t *);
hg_return_t HG_Addr_free(hg_class_t *, hg_addr_t);
hg_return_t HG_Addr_self(hg_class_t *, hg_addr_t *);
hg_return_t HG_Addr_dup(hg_class_t *, hg_addr_t, hg_addr_t *);
hg_return_t HG_Addr_to_string(hg_class_t *, char *, hg_size_t *, hg_addr_t);
hg_return_t HG_Create(hg_context_t *, hg_addr_t, hg_id_t, hg_handle_t *);
hg_return_t HG_Destroy(hg_handle_t);
hg_return_t HG_Ref_incr(hg_handle_t);
hg_return_t HG_Set_data(hg_handle_t, void *, void (*)(void *));
void *HG_Get_data(hg_handle_t);
const struct hg_info *HG_Get_info(hg_handle_t);
hg_return_t HG_Get_input(hg_handle_t, void *);
hg_return_t HG_Free_input(hg_handle_t, void *);
hg_return_t HG_Get_output(hg_handle_t, void *);
hg_return_t HG_Free_output(hg_handle_t, void *);
hg_return_t HG_Forward(hg_handle_t, hg_cb_t, void *, void *);
hg_return_t HG_Respond(hg_handle_t, hg_cb_t, void *, void *);
hg_return_t HG_Progress(hg_context_t *, unsigned int);
hg_return_t HG_Trigger(hg_context_t *, unsigned int, unsigned int, unsigned int *);
hg_return_t HG_Bulk_create(hg_class_t *, uint32_t, void **, const hg_size_t *, uint8_t, hg_bulk_t *);
hg_return_t HG_Bulk_free(hg_bulk_t);
hg_return_t HG_Bulk_ref_incr(hg_bulk_t);
hg_return_t HG_Bulk_access(hg_bulk_t, hg_size_t, hg_size_t, uint8_t, uint32_t, void **, hg_size_t *, uint32_t *);
hg_size_t HG_Bulk_get_size(hg_bulk_t);
uint32_t HG_Bulk_get_segment_count(hg_bulk_t);
hg_return_t HG_Bulk_transfer(hg_context_t *, hg_cb_t, void *, hg_bulk_op_t, hg_addr_t, hg_bulk_t, hg_size_t, hg_bulk_t, hg_size_t, hg_size_t, hg_op_id_t *);
/* mercury_proc.h */
hg_proc_op_t hg_proc_get_op(hg_proc_t);
hg_return_t hg_proc_raw(hg_proc_t, void *, hg_size_t);
hg_return_t hg_proc_bytes(hg_proc_t, void *, hg_size_t);
hg_return_t hg_proc_memcpy(hg_proc_t, void *, hg_size_t);
hg_return_t hg_proc_hg_bulk_t(hg_proc_t, void *);
#define DECLP(t) hg_return_t hg_proc_##t(hg_proc_t proc, void *data);
DECLP(int8_t) DECLP(uint8_t) DECLP(int16_t) DECLP(uint16_t) DECLP(int32_t) DECLP(uint32_t) DECLP(int64_t) DECLP(uint64_t)
DECLP(hg_int8_t) DECLP(hg_uint8_t) DECLP(hg_int16_t) DECLP(hg_uint16_t) DECLP(hg_int32_t) DECLP(hg_uint32_t) DECLP(hg_int64_t) DECLP(hg_uint64_t)
DECLP(hg_size_t) DECLP(hg_id_t) DECLP(hg_bool_t)
#undef DECLP
#endif
