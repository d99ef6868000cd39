from vp.core import Unit

# ---------------------------------------------------------------- queue.h (C03)
def queue_unit(tag, item, cap, tier='quick'):
    U = Unit('queue_' + tag, before=r'''
#include "collections/queue.h"
typedef struct { uint32_t a; uint8_t b; } pair_t;
QUEUE_DECLARATION(Q, %s, %d)
QUEUE_DEFINITION(Q, %s)
''' % (item, cap, item), spec=r'''
#define CAP %d
typedef %s item_t;
/* abstract view: the queue holds QCOUNT items, AT(q,k) is the k-th oldest (indices are free-running 16 bit counters) */
#define QCOUNT(q) ((uint16_t)((q).write_idx - (q).read_idx))
#define AT(q, k) ((q).items[(uint16_t)((q).read_idx + (k)) & (CAP - 1)])
static int eq(item_t x, item_t y) { return %s; }
static uint16_t W; /* watched position: arbitrary, so a clause about position W is a clause about every position */
static int same_at(struct Q o, struct Q n, uint16_t ko, uint16_t kn) { return eq(AT(o, ko), AT(n, kn)); }
''' % (cap, item, 'x.a == y.a && x.b == y.b' if item == 'pair_t' else 'x == y'))
    INV = 'QCOUNT(*p_queue) <= CAP'
    RW = 'VP_RW(p_queue, sizeof *p_queue)'
    U.contract('void Q_init(struct Q *p_queue)', requires=[RW], assigns='*p_queue', ensures={'empty': 'QCOUNT(*p_queue) == 0'})
    U.contract('size_t Q_count(struct Q *p_queue)', requires=[RW, INV], assigns='',
               ensures={'number_of_items': r'\result == QCOUNT(*p_queue)', 'never_above_capacity': r'\result <= CAP'})
    U.contract('enqueue_result_t Q_enqueue(struct Q *p_queue, item_t *p_new_item)',
        requires=[RW, INV, 'VP_R(p_new_item, sizeof *p_new_item)'], assigns='*p_queue', ensures={
            'full_exactly_at_capacity': r'\result == (QCOUNT(\old(*p_queue)) == CAP ? ENQUEUE_RESULT_FULL : ENQUEUE_RESULT_SUCCESS)',
            'one_more_item': r'QCOUNT(*p_queue) == QCOUNT(\old(*p_queue)) + (\result == ENQUEUE_RESULT_SUCCESS)',
            'stored_items_keep_value_and_order': r'VP_IMP(W < QCOUNT(\old(*p_queue)), same_at(\old(*p_queue), *p_queue, W, W))',
            'new_item_is_the_youngest': r'VP_IMP(\result == ENQUEUE_RESULT_SUCCESS, eq(AT(*p_queue, QCOUNT(\old(*p_queue))), *p_new_item))'})
    U.contract('dequeue_result_t Q_dequeue(struct Q *p_queue, item_t *p_item_out)',
        requires=[RW, INV, 'p_item_out == NULL || VP_RW(p_item_out, sizeof *p_item_out)'],
        assigns='*p_queue; p_item_out != NULL: *p_item_out', ensures={
            'empty_exactly_without_items': r'\result == (QCOUNT(\old(*p_queue)) == 0 ? DEQUEUE_RESULT_EMPTY : DEQUEUE_RESULT_SUCCESS)',
            'one_item_less': r'QCOUNT(*p_queue) == QCOUNT(\old(*p_queue)) - (\result == DEQUEUE_RESULT_SUCCESS)',
            'returns_the_oldest': r'VP_IMP(\result == DEQUEUE_RESULT_SUCCESS && p_item_out != NULL, eq(*p_item_out, AT(\old(*p_queue), 0)))',
            'others_move_up': r'VP_IMP(\result == DEQUEUE_RESULT_SUCCESS && W < QCOUNT(*p_queue), same_at(\old(*p_queue), *p_queue, W + 1, W))'})
    U.contract('dequeue_result_t Q_drop(struct Q *p_queue)', requires=[RW, INV], assigns='*p_queue', ensures={
            'empty_exactly_without_items': r'\result == (QCOUNT(\old(*p_queue)) == 0 ? DEQUEUE_RESULT_EMPTY : DEQUEUE_RESULT_SUCCESS)',
            'one_item_less': r'QCOUNT(*p_queue) == QCOUNT(\old(*p_queue)) - (\result == DEQUEUE_RESULT_SUCCESS)',
            'others_move_up': r'VP_IMP(\result == DEQUEUE_RESULT_SUCCESS && W < QCOUNT(*p_queue), same_at(\old(*p_queue), *p_queue, W + 1, W))'})
    U.contract('int Q_is_empty(struct Q *p_queue)', requires=[RW, INV], assigns='', ensures={'iff_no_items': r'(\result != 0) == (QCOUNT(*p_queue) == 0)'})
    U.contract('int Q_is_full(struct Q *p_queue)', requires=[RW, INV], assigns='', ensures={'iff_at_capacity': r'(\result != 0) == (QCOUNT(*p_queue) == CAP)'})
    P = ['C03']
    H = 'IN(struct Q, q); IN(uint16_t, w); W = w; '
    k = dict(tier=tier)
    U.proof('Q_init', H + 'CALL(Q_init)(&q);', P, **k)
    U.proof('Q_count', H + 'CALL(Q_count)(&q);', P, **k)
    U.proof('Q_enqueue', H + 'IN(item_t, x); CALL(Q_enqueue)(&q, &x);', P, **k)
    U.proof('Q_dequeue', H + 'IN(item_t, x); IN(int, n); CALL(Q_dequeue)(&q, n ? &x : NULL);', P, **k)
    U.proof('Q_drop', H + 'CALL(Q_drop)(&q);', P, replace=['Q_dequeue'], **k)
    U.proof('Q_is_empty', H + 'CALL(Q_is_empty)(&q);', P, **k)
    U.proof('Q_is_full', H + 'CALL(Q_is_full)(&q);', P, **k)
    U.lemma('fifo_of_two', H + r'''
        IN(item_t, x); IN(item_t, y); item_t o; ASSUME(QCOUNT(q) == 0 && CAP >= 2); W = 0;
        ASSERT("first fits", CALL(Q_enqueue)(&q, &x) == ENQUEUE_RESULT_SUCCESS);
        ASSERT("second fits", CALL(Q_enqueue)(&q, &y) == ENQUEUE_RESULT_SUCCESS);
        ASSERT("two", CALL(Q_count)(&q) == 2);
        ASSERT("x first", CALL(Q_dequeue)(&q, &o) == DEQUEUE_RESULT_SUCCESS && eq(o, x));
        ASSERT("then y", CALL(Q_dequeue)(&q, &o) == DEQUEUE_RESULT_SUCCESS && eq(o, y));
        ASSERT("then nothing", CALL(Q_is_empty)(&q) && CALL(Q_dequeue)(&q, &o) == DEQUEUE_RESULT_EMPTY);
    ''' if cap >= 2 else H + 'IN(item_t, x); item_t o; ASSUME(QCOUNT(q) == 0); CALL(Q_enqueue)(&q, &x); ASSERT("full", CALL(Q_is_full)(&q)); CALL(Q_dequeue)(&q, &o); ASSERT("back", eq(o, x));',
        P, replace=['Q_enqueue', 'Q_dequeue', 'Q_count', 'Q_is_empty', 'Q_is_full'], **k)
    U.assume = ['queue.h: capacity is a power of two, at most 32768 (the index arithmetic masks with capacity-1); instances proved: every one listed in jobs']

queue_unit('u8x1', 'uint8_t', 1)
queue_unit('pairx4', 'pair_t', 4)
queue_unit('u8x8', 'uint8_t', 8)
queue_unit('u16x2', 'uint16_t', 2, 'thorough')
queue_unit('pairx64', 'pair_t', 64, 'thorough')
queue_unit('u8x512', 'uint8_t', 512, 'thorough')

# ---------------------------------------------------------------- stack.h (C04)
def stack_unit(tag, item, cap, tier='quick'):
    U = Unit('stack_' + tag, before=r'''
#include "collections/stack.h"
typedef struct { uint32_t a; uint8_t b; } pair_t;
STACK_DECLARATION(S, %s, %d)
STACK_DEFINITION(S, %s)
''' % (item, cap, item), spec=r'''
#define CAP %d
typedef %s item_t;
/* abstract view: SIZE items, item 0 is the oldest, item SIZE-1 the top */
#define SIZE(s) ((s).idx)
static int eq(item_t x, item_t y) { return %s; }
static uint16_t W;
''' % (cap, item, 'x.a == y.a && x.b == y.b' if item == 'pair_t' else 'x == y'))
    RW, INV = 'VP_RW(p_stack, sizeof *p_stack)', 'SIZE(*p_stack) <= CAP'
    OUT = 'p_item_out == NULL || VP_RW(p_item_out, sizeof *p_item_out)'
    U.contract('void S_init(struct S *p_stack)', requires=[RW], assigns='*p_stack', ensures={'empty': 'SIZE(*p_stack) == 0'})
    U.contract('push_result_t S_push(struct S *p_stack, item_t *p_new_item)', requires=[RW, INV, 'VP_R(p_new_item, sizeof *p_new_item)'], assigns='*p_stack', ensures={
        'full_exactly_at_capacity': r'\result == (\old(p_stack->idx) == CAP ? PUSH_RESULT_FULL : PUSH_RESULT_SUCCESS)',
        'one_more_item': r'SIZE(*p_stack) == \old(p_stack->idx) + (\result == PUSH_RESULT_SUCCESS)',
        'new_item_on_top': r'VP_IMP(\result == PUSH_RESULT_SUCCESS, eq(p_stack->items[SIZE(*p_stack) - 1], *p_new_item))',
        'others_untouched': r'VP_IMP(W < \old(p_stack->idx), eq(p_stack->items[W % CAP], \old(*p_stack).items[W % CAP]))'})
    U.contract('pop_result_t S_pop(struct S *p_stack, item_t *p_item_out)', requires=[RW, INV, OUT], assigns='*p_stack; p_item_out != NULL: *p_item_out', ensures={
        'empty_exactly_without_items': r'\result == (\old(p_stack->idx) == 0 ? POP_RESULT_EMPTY : POP_RESULT_SUCCESS)',
        'one_item_less': r'SIZE(*p_stack) == \old(p_stack->idx) - (\result == POP_RESULT_SUCCESS)',
        'returns_the_top': r'VP_IMP(\result == POP_RESULT_SUCCESS && p_item_out != NULL, eq(*p_item_out, \old(*p_stack).items[SIZE(*p_stack) % CAP]))',
        'others_untouched': r'VP_IMP(W < SIZE(*p_stack), eq(p_stack->items[W % CAP], \old(*p_stack).items[W % CAP]))'})
    U.contract('pop_result_t S_peek(struct S *p_stack, item_t *p_item_out)', requires=[RW, INV, OUT], assigns='p_item_out != NULL: *p_item_out', ensures={
        'empty_exactly_without_items': r'\result == (SIZE(*p_stack) == 0 ? POP_RESULT_EMPTY : POP_RESULT_SUCCESS)',
        'returns_the_top_without_removing_it': r'VP_IMP(\result == POP_RESULT_SUCCESS && p_item_out != NULL, eq(*p_item_out, p_stack->items[(SIZE(*p_stack) + CAP - 1) % CAP]))'})
    U.contract('void S_dequeue(struct S *p_stack)', requires=[RW, INV], assigns='*p_stack', ensures={
        'one_item_less': r'SIZE(*p_stack) == \old(p_stack->idx) - (\old(p_stack->idx) > 0)',
        'oldest_removed_others_move_down': r'VP_IMP(W < SIZE(*p_stack), eq(p_stack->items[W % CAP], \old(*p_stack).items[(W + 1) % CAP]))'})
    U.contract('int S_is_empty(struct S *p_stack)', requires=[RW, INV], assigns='', ensures={'iff_no_items': r'(\result != 0) == (SIZE(*p_stack) == 0)'})
    U.contract('int S_is_full(struct S *p_stack)', requires=[RW, INV], assigns='', ensures={'iff_at_capacity': r'(\result != 0) == (SIZE(*p_stack) == CAP)'})
    P = ['C04']
    H = 'IN(struct S, s); IN(uint16_t, w); W = w; '
    k = dict(tier=tier, unwind=cap + 3)
    U.proof('S_init', H + 'CALL(S_init)(&s);', P, **k)
    U.proof('S_push', H + 'IN(item_t, x); CALL(S_push)(&s, &x);', P, **k)
    U.proof('S_pop', H + 'IN(item_t, x); IN(int, n); CALL(S_pop)(&s, n ? &x : NULL);', P, **k)
    U.proof('S_peek', H + 'IN(item_t, x); IN(int, n); CALL(S_peek)(&s, n ? &x : NULL);', P, **k)
    U.proof('S_dequeue', H + 'CALL(S_dequeue)(&s);', P, **k)
    U.proof('S_is_empty', H + 'CALL(S_is_empty)(&s);', P, **k)
    U.proof('S_is_full', H + 'CALL(S_is_full)(&s);', P, **k)
    U.lemma('push_then_peek_then_pop', H + r'''
        IN(item_t, x); item_t o, p; ASSUME(SIZE(s) < CAP); struct S before = s;
        CALL(S_push)(&s, &x);
        ASSERT("peek sees it", CALL(S_peek)(&s, &o) == POP_RESULT_SUCCESS && eq(o, x));
        ASSERT("pop returns it", CALL(S_pop)(&s, &p) == POP_RESULT_SUCCESS && eq(p, x));
        ASSERT("and the stack is as before", SIZE(s) == SIZE(before) && VP_IMP(W < SIZE(s), eq(s.items[W % CAP], before.items[W % CAP])));
    ''', P, replace=['S_push', 'S_peek', 'S_pop'], **k)
    U.assume = ['stack.h: capacity below 65536 (16 bit index); instances proved: every one listed in jobs']

stack_unit('u8x1', 'uint8_t', 1)
stack_unit('pairx5', 'pair_t', 5)
stack_unit('u16x8', 'uint16_t', 8, 'thorough')
stack_unit('pairx40', 'pair_t', 40, 'thorough')
