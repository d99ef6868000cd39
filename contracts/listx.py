from vp.core import Unit

U = Unit('listx', before='#include "collections/listx.h"\ntypedef struct list_head node_t;', spec=r'''
/* A node of a circular list is well linked when its neighbours point back to it.  The list is arbitrary: a call only
 * looks at head and its two neighbours, which are drawn from N (they may coincide, down to the empty list); every
 * other node of the list is outside the frame, hence untouched. */
static node_t N[5];
typedef struct { uint8_t next[5], prev[5]; } links_t;
static void link_all(links_t l) { for (int i = 0; i < 5; i++) { N[i].next = &N[l.next[i] % 5]; N[i].prev = &N[l.prev[i] % 5]; } }
#define LINKED(p) ((p)->next->prev == (p) && (p)->prev->next == (p))
''')
RW = 'VP_RW(%s, sizeof(struct list_head))'
U.contract('void INIT_LIST_HEAD(struct list_head *list)', requires=[RW % 'list'], assigns='*list',
    ensures={'empty': 'list->next == list && list->prev == list'})
U.contract('void list_add(struct list_head *new, struct list_head *head)',
    requires=[RW % 'new', RW % 'head', 'LINKED(head) && new != head && new != head->next && new != head->prev'],
    assigns='new->next, new->prev, head->next, head->next->prev', ensures={
        'inserted_right_after_head': r'head->next == new && new->prev == head',
        'rest_follows': r'new->next == \old(head->next) && \old(head->next)->prev == new',
        'still_well_linked': 'LINKED(new) && LINKED(head)'})
U.contract('void list_add_tail(struct list_head *new, struct list_head *head)',
    requires=[RW % 'new', RW % 'head', 'LINKED(head) && new != head && new != head->next && new != head->prev'],
    assigns='new->next, new->prev, head->prev, head->prev->next', ensures={
        'inserted_right_before_head': r'head->prev == new && new->next == head',
        'rest_precedes': r'new->prev == \old(head->prev) && \old(head->prev)->next == new',
        'still_well_linked': 'LINKED(new) && LINKED(head)'})
U.contract('void list_del(struct list_head *entry)',
    requires=[RW % 'entry', 'LINKED(entry)'], assigns='entry->prev->next, entry->next->prev', ensures={
        'neighbours_joined': r'VP_IMP(\old(entry->next) != entry, \old(entry->prev)->next == \old(entry->next) && \old(entry->next)->prev == \old(entry->prev))'})
U.contract('int list_is_last(const struct list_head *list, const struct list_head *head)',
    requires=['VP_R(list, sizeof *list)'], assigns='', ensures={'iff_next_is_head': r'(\result != 0) == (list->next == head)'})
U.contract('int list_empty(const struct list_head *head)',
    requires=['VP_R(head, sizeof *head)'], assigns='', ensures={'iff_points_to_itself': r'(\result != 0) == (head->next == head)'})
U.contract('struct list_head *list_next(const struct list_head *current)', requires=['VP_R(current, sizeof *current)'], assigns='',
    ensures={'next_or_null': r'\result == (current->next == current ? NULL : current->next)'})
U.contract('struct list_head *list_prev(const struct list_head *current)', requires=['VP_R(current, sizeof *current)', 'LINKED(current)'], assigns='',
    ensures={'prev_or_null': r'\result == (current->next == current ? NULL : current->prev)'})
P = ['C05']
H = 'IN(links_t, l); link_all(l); '
U.proof('INIT_LIST_HEAD', H + 'CALL(INIT_LIST_HEAD)(&N[0]);', P)
U.proof('list_add', H + 'CALL(list_add)(&N[4], &N[0]);', P)
U.proof('list_add_tail', H + 'CALL(list_add_tail)(&N[4], &N[0]);', P)
U.proof('list_del', H + 'CALL(list_del)(&N[0]);', P)
U.proof('list_is_last', H + 'IN(uint8_t, h); CALL(list_is_last)(&N[0], &N[h % 5]);', P)
U.proof('list_empty', H + 'CALL(list_empty)(&N[0]);', P, unwind=6)
U.proof('list_next', H + 'CALL(list_next)(&N[0]);', P)
U.proof('list_prev', H + 'CALL(list_prev)(&N[0]);', P)
U.lemma('add_then_del_restores', H + r'''
    ASSUME(LINKED(&N[0]) && N[0].next != &N[4] && N[0].prev != &N[4]); IN(int, tail);
    node_t *n = N[0].next, *p = N[0].prev;
    if (tail) CALL(list_add_tail)(&N[4], &N[0]); else CALL(list_add)(&N[4], &N[0]);
    ASSERT("not empty", !CALL(list_empty)(&N[0]));
    CALL(list_del)(&N[4]);
    ASSERT("head links restored", N[0].next == n && N[0].prev == p && n->prev == &N[0] && p->next == &N[0]);
''', P, replace=['list_add', 'list_add_tail', 'list_del', 'list_empty'])
# iteration macros: every element once, in order / reverse order; the list is built with the operations (bounded: up to 4 elements)
U.lemma('iteration_order_up_to_4_elements', r'''
    typedef struct { int pad; struct list_head l; int tag; } item_t;
    static item_t it[4]; struct list_head head; IN(uint8_t, n); IN(uint8_t, tails); IN(uint8_t, del);
    ASSUME(n <= 4);
    int order[4], m = 0;
    INIT_LIST_HEAD(&head);
    for (int i = 0; i < 4; i++) if (i < n) {
        it[i].tag = i;
        if ((tails >> i) & 1) { list_add_tail(&it[i].l, &head); order[m++] = i; }
        else { list_add(&it[i].l, &head); for (int k = 3; k > 0; k--) if (k <= m) order[k] = order[k - 1]; order[0] = i; m++; }
    }
    if (del < n) {
        list_del(&it[del].l);
        int w = 0; for (int k = 0; k < 4; k++) if (k < m && order[k] != del) order[w++] = order[k];
        m = w;
    }
    int k = 0; struct list_head *pos; item_t *e;
    list_for_each(pos, &head) { ASSERT("for_each order", k < m && container_of(pos, item_t, l)->tag == order[k]); k++; }
    ASSERT("for_each visits all", k == m);
    list_for_each_prev(pos, &head) { k--; ASSERT("for_each_prev order", k >= 0 && container_of(pos, item_t, l)->tag == order[k]); }
    ASSERT("for_each_prev visits all", k == 0);
    list_for_each_entry(e, &head, l) { ASSERT("entry order", k < m && e->tag == order[k]); k++; }
    ASSERT("entry visits all", k == m);
    list_for_each_entry_reverse(e, &head, l) { k--; ASSERT("entry_reverse order", k >= 0 && e->tag == order[k]); }
    ASSERT("entry_reverse visits all", k == 0);
''', P, plain=True, unwind=7, bound='lists of at most 4 elements', note='iteration macros: bounded to lists of at most 4 elements, built by the real operations')
U.assume = ['listx: the inserted node is not already a member of the list; nodes are distinct objects']
