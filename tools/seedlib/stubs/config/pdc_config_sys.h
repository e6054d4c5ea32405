/* config.h Generated by cmake with CMakelists.txt. from config.h.cmake  */

/* Define if you want to enable MPI */
#define ENABLE_MPI 

/* Define if you want to use lustre */
/* #undef ENABLE_LUSTRE */

/* Define if you want to enable timing */
/* #undef PDC_TIMING */

/* Define if you want to enable server cache */
#define PDC_SERVER_CACHE

/* Define the max region cache size in GB */
/* #undef PDC_SERVER_CACHE_MAX_GB */

/* Define region cache flush time interval */
/* #undef PDC_SERVER_CACHE_FLUSH_TIME */

/* Define if you want to enable checkpoint */
#define PDC_ENABLE_CHECKPOINT

/* Define if you want to enable profiling */
/* #undef ENABLE_PROFILING */

/* Define if you want to enable DART_SUFFIX_TREE mode */
#define PDC_DART_SFX_TREE

/* Define if you want to enable Julia */
/* #undef PDC_ENABLE_JULIA */

/* Define if you want to enable multithread */
/* #undef ENABLE_MULTITHREAD */

/* Define if compiler supports attributes */
#define HAVE_ATTRIBUTE

/* Define if has Cray DRC */
/* #undef PDC_HAS_CRAY_DRC */

/* Define if use shared server */
/* #undef PDC_HAS_SHARED_SERVER */

/* Define if closing server by application */
/* #undef ENABLE_APP_CLOSE_SERVER */

/* Define if wait for data to be fanalized when closing dataset */
/* #undef ENABLE_WAIT_DATA */

/* Define size of float type */
#define VAR_SIZE_FLOAT 4

/* Define size of double type */
#define VAR_SIZE_DOUBLE 8

/* Define size of char type */
#define VAR_SIZE_CHAR 1

/* Define size of short int type */
#define VAR_SIZE_SINT 2

/* Define size of int type */
#define VAR_SIZE_INT 4

/* Define size of long int type */
#define VAR_SIZE_LINT 8

/* Define size of long long int type */
#define VAR_SIZE_LLINT 8

/* Define size of unsigned int type */
#define VAR_SIZE_UINT 4

/* Define size of unsigned long int type */
#define VAR_SIZE_ULINT 8

/* Define size of unsigned long long int type */
#define VAR_SIZE_ULLINT 8

/* Define size of int64_t int type */
#define VAR_SIZE_64INT 8

/* Define size of uint64_t int type */
#define VAR_SIZE_U64INT 8
