#ifndef MERCURY_LIST_H
#define MERCURY_LIST_H
/* BSD-style singly/doubly linked list macros, as in Mercury's mercury_list.h */
#define HG_LIST_HEAD_INITIALIZER(name) { NULL }
#define HG_LIST_HEAD_DECL(struct_head_name, struct_entry_name) struct struct_head_name { struct struct_entry_name *head; }
#define HG_LIST_ENTRY(struct_entry_name) struct { struct struct_entry_name *next; struct struct_entry_name **prev; }
#endif
