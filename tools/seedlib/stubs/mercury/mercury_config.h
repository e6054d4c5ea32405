/* Declarations-only model of the Mercury 2.x public API, written for parsing hpc-io/pdc.
 * Nothing here is linked or run. */
#ifndef MERCURY_CONFIG_H
#define MERCURY_CONFIG_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
typedef uint8_t hg_uint8_t; typedef int8_t hg_int8_t;
typedef uint16_t hg_uint16_t; typedef int16_t hg_int16_t;
typedef uint32_t hg_uint32_t; typedef int32_t hg_int32_t;
typedef uint64_t hg_uint64_t; typedef int64_t hg_int64_t;
typedef uint8_t hg_bool_t;
typedef uint64_t hg_ptr_t;
#define HG_TRUE 1
#define HG_FALSE 0
#define HG_INLINE inline
#define HG_PUBLIC
#define HG_UTIL_SUCCESS 0
#define HG_UTIL_FAIL -1
#endif
