/* users of the iteration macros of collections/listx.h, one per macro (C05); the macros are expanded from /repo's header on every run */
#include "collections/listx.h"
typedef struct { long tag; long pad; struct list_head l; } item_t;
void visit(struct list_head *at);
static void walk_for_each(struct list_head *head) { struct list_head *pos; list_for_each(pos, head) { visit(pos); } }
static void walk_for_each_prev(struct list_head *head) { struct list_head *pos; list_for_each_prev(pos, head) { visit(pos); } }
static void walk_for_each_entry(struct list_head *head) { item_t *pos; list_for_each_entry(pos, head, l) { visit(&pos->l); } }
static void walk_for_each_entry_reverse(struct list_head *head) { item_t *pos; list_for_each_entry_reverse(pos, head, l) { visit(&pos->l); } }
