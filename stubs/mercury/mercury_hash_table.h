#ifndef MERCURY_HASH_TABLE_H
#define MERCURY_HASH_TABLE_H
typedef struct hg_hash_table hg_hash_table_t;
typedef struct hg_hash_table_entry hg_hash_table_entry_t;
typedef void *hg_hash_table_key_t;
typedef void *hg_hash_table_value_t;
typedef struct hg_hash_table_iter { hg_hash_table_t *h; hg_hash_table_entry_t *n; unsigned int c; } hg_hash_table_iter_t;
#define HG_HASH_TABLE_NULL ((void *)0)
typedef unsigned int (*hg_hash_table_hash_func_t)(hg_hash_table_key_t);
typedef int (*hg_hash_table_equal_func_t)(hg_hash_table_key_t, hg_hash_table_key_t);
typedef void (*hg_hash_table_key_free_func_t)(hg_hash_table_key_t);
typedef void (*hg_hash_table_value_free_func_t)(hg_hash_table_value_t);
hg_hash_table_t *hg_hash_table_new(hg_hash_table_hash_func_t, hg_hash_table_equal_func_t);
void hg_hash_table_free(hg_hash_table_t *);
void hg_hash_table_register_free_functions(hg_hash_table_t *, hg_hash_table_key_free_func_t, hg_hash_table_value_free_func_t);
int hg_hash_table_insert(hg_hash_table_t *, hg_hash_table_key_t, hg_hash_table_value_t);
hg_hash_table_value_t hg_hash_table_lookup(hg_hash_table_t *, hg_hash_table_key_t);
int hg_hash_table_remove(hg_hash_table_t *, hg_hash_table_key_t);
unsigned int hg_hash_table_num_entries(hg_hash_table_t *);
void hg_hash_table_iterate(hg_hash_table_t *, hg_hash_table_iter_t *);
int hg_hash_table_iter_has_more(hg_hash_table_iter_t *);
hg_hash_table_value_t hg_hash_table_iter_next(hg_hash_table_iter_t *);
#endif
