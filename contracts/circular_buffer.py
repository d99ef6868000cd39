from vp.core import Unit

# ---------------------------------------------------------------- circular_buffer.c, one thread (C01)
def cbuf_unit(tag, T, tier='quick'):
    U = Unit('cbuf_' + tag, defs=['VP_MEMCPY_WATCH', 'GEL_CBUF_TYPE=' + T], src=['gel/collections/circular_buffer.c'], spec=r'''
typedef GEL_CBUF_TYPE item_t;
#define SZ sizeof(item_t)
/* abstract view: COUNT items, the j-th oldest in slot tail+j (wrapping), ROOM free slots; one slot is never used */
#define COUNT(h, t, n) ((h) >= (t) ? (h) - (t) : (n) - (t) + (h))
#define ROOM(h, t, n) ((n) - 1 - COUNT(h, t, n))
#define WRAP(i, n) ((i) >= (n) ? (i) - (n) : (i))
#define DIST(from, to, n) ((to) >= (from) ? (to) - (from) : (n) - (from) + (to)) /* steps from one slot to another */
#define VALID(c) (VP_RW((c), sizeof *(c)) && (c)->bufsize >= 1 && (c)->bufsize <= 0x7fffffff && VP_RW((c)->buffer, (c)->bufsize * SZ) \
        && (c)->head < (c)->bufsize && (c)->tail < (c)->bufsize)
#define CNT(c) COUNT((c)->head, (c)->tail, (c)->bufsize)
#define IB(p, i) (((uint8_t *)&(p)[i])[KB]) /* watched byte of item i */
static size_t K, KB, D; /* watched slot, byte of the item, and position in the caller's data: arbitrary */
''')
    H, Tl, N = r'\old(cbuf->head)', r'\old(cbuf->tail)', 'cbuf->bufsize'
    V = 'VALID(cbuf) && K < cbuf->bufsize && KB < SZ'
    c = U.contract
    c('int circular_buf_init(circular_buf_t *cbuf, GEL_CBUF_TYPE *buffer, size_t size)', requires=['VP_RW(cbuf, sizeof *cbuf)'], assigns='*cbuf', ensures={
        'refuses_no_memory': r'(\result == 0) == (buffer != NULL && size > 0)',
        'starts_empty_with_that_memory': r'VP_IMP(\result == 0, cbuf->buffer == buffer && cbuf->bufsize == size && cbuf->head == cbuf->tail && cbuf->head < size)'})
    c('void circular_buf_reset(circular_buf_t *cbuf)', requires=['VALID(cbuf)'], assigns='cbuf->head, cbuf->tail', ensures={
        'empty': 'CNT(cbuf) == 0 && cbuf->head < cbuf->bufsize'})
    c('int is_circular_buf_empty(circular_buf_t *cbuf)', requires=['VALID(cbuf)'], assigns='', ensures={'iff_no_items': r'(\result != 0) == (CNT(cbuf) == 0)'})
    c('int is_circular_buf_full(circular_buf_t *cbuf)', requires=['VALID(cbuf)'], assigns='', ensures={
        'iff_no_room': r'(\result != 0) == (CNT(cbuf) == cbuf->bufsize - 1)'})
    c('size_t circular_buf_size(circular_buf_t *cbuf)', requires=['VALID(cbuf)'], assigns='', ensures={'number_of_items': r'\result == CNT(cbuf)'})
    c('size_t circular_buf_capacity(circular_buf_t *cbuf)', requires=['VALID(cbuf)'], assigns='', ensures={'one_less_than_memory': r'\result == cbuf->bufsize - 1'})
    c('int circular_buf_putc(circular_buf_t *cbuf, GEL_CBUF_TYPE data)', requires=[V], assigns='cbuf->head, OBJ(cbuf->buffer)', ensures={
        'accepts_exactly_with_room': r'\result == (ROOM(%s, cbuf->tail, %s) > 0 ? 0 : -1)' % (H, N),
        'one_more_item': r'cbuf->head == (\result == 0 ? WRAP(%s + 1, %s) : %s)' % (H, N, H),
        'new_item_is_the_youngest_others_untouched': r'cbuf->head < cbuf->bufsize && IB(cbuf->buffer, K) == (\result == 0 && K == %s ? IB(&data, 0) : \old(IB(cbuf->buffer, K)))' % H})
    n = 'VP_MIN(len, ROOM(%s, cbuf->tail, %s))' % (H, N)
    c('int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len)', requires=[V + ' && len <= 0x7fffffff && VP_R(data, len * SZ)'],
      assigns='cbuf->head, OBJ(cbuf->buffer)', ensures={
        'takes_as_much_as_fits': r'(size_t)\result == ' + n,
        'that_many_more_items': r'cbuf->head == WRAP(%s + (size_t)\result, %s)' % (H, N),
        'new_items_in_order_others_untouched': r'IB(cbuf->buffer, K) == (DIST(%s, K, %s) < (size_t)\result ? IB(data, DIST(%s, K, %s)) : \old(IB(cbuf->buffer, K)))' % (H, N, H, N)})
    c('int circular_buf_getc(circular_buf_t *cbuf, GEL_CBUF_TYPE *data)', requires=[V + ' && (data == NULL || VP_RW(data, SZ))'],
      assigns='cbuf->tail; data != NULL: *data', ensures={
        'fails_exactly_when_empty': r'\result == (COUNT(cbuf->head, %s, %s) > 0 ? 0 : -1)' % (Tl, N),
        'one_item_less': r'cbuf->tail == (\result == 0 ? WRAP(%s + 1, %s) : %s)' % (Tl, N, Tl),
        'returns_the_oldest': r'VP_IMP(\result == 0 && data != NULL, IB(data, 0) == IB(cbuf->buffer, %s))' % Tl})
    cnt = 'COUNT(cbuf->head, %s, %s)' % (Tl, N)
    for f in ('gets', 'peek', 'drop'):
        ens = {'number_available_up_to_len': r'(size_t)\result == VP_MIN((size_t)len, %s)' % cnt}
        if f != 'peek': ens['that_many_fewer_items'] = r'cbuf->tail == WRAP(%s + (size_t)\result, %s)' % (Tl, N)
        if f != 'drop': ens['oldest_items_in_order_nothing_beyond'] = (r'VP_IMP(data != NULL && D < (size_t)len, IB(data, D) == (D < (size_t)\result ? '
            r'IB(cbuf->buffer, WRAP(%s + D, %s)) : \old(*(data == NULL ? &Z : &IB(data, D)))))' % (Tl, N))
        a = ([] if f == 'peek' else ['cbuf->tail']) + ([] if f == 'drop' else ['data != NULL: OBJ(data)'])
        c('int circular_buf_%s(circular_buf_t *cbuf, %sint len)' % (f, '' if f == 'drop' else 'GEL_CBUF_TYPE *data, '),
          requires=[V + ' && len >= 0' + ('' if f == 'drop' else ' && (data == NULL || (VP_RW(data, (size_t)len * SZ) && D < (size_t)len))')],
          assigns='; '.join(a), ensures=ens)
    U.spec += 'static uint8_t Z;\n'
    P = ['C01']
    C = r'''
    circular_buf_t c; IN(size_t, n); IN(size_t, h); IN(size_t, t); IN(size_t, k); IN(size_t, kb);
    VP_SMALL(n, 12); VP_SMALL(h, n); VP_SMALL(t, n); VP_SMALL(k, n); VP_SMALL(kb, SZ);
    ASSUME(n >= 1 && n <= VP_IF_BOUNDED(VP_BOUNDED, 0x7fffffff) && h < n && t < n && k < n && kb < SZ);
    c.buffer = vp_mem(n * SZ, 3); c.bufsize = n; c.head = h; c.tail = t; K = k; KB = kb; VP_WATCH1(&IB(c.buffer, K));
    '''
    DAT = r'''IN(size_t, len); IN(size_t, d); VP_SMALL(len, 14); VP_SMALL(d, len); ASSUME(len <= VP_IF_BOUNDED(VP_BOUNDED, 0x7fffffff)); D = d; item_t *data = vp_mem(len * SZ, 101); '''
    k = dict(tier=tier, bounded=dict(n=5, unwind=8, timeout=200), unwind=4, timeout=420)
    U.proof('circular_buf_init', r'circular_buf_t c; IN(size_t, n); IN(int, isnull); item_t x; CALL(circular_buf_init)(&c, isnull ? NULL : &x, n);', P, **k)
    U.proof('circular_buf_reset', C + 'CALL(circular_buf_reset)(&c);', P, **k)
    for f in ('is_circular_buf_empty', 'is_circular_buf_full', 'circular_buf_size', 'circular_buf_capacity'):
        U.proof(f, C + 'CALL(%s)(&c);' % f, P, **k)
    U.proof('circular_buf_putc', C + 'IN(item_t, x); CALL(circular_buf_putc)(&c, x);', P, **k)
    for i, o in enumerate((['takes_as_much_as_fits'], ['that_many_more_items'], ['new_items_in_order_others_untouched'])):
        U.proof('circular_buf_puts', C + DAT + 'CALL(circular_buf_puts)(&c, data, len);', P, name='circular_buf_puts/%d' % i, only=o, cost=9, replace=['is_circular_buf_full'], **k)
    U.proof('circular_buf_getc', C + 'IN(int, nul); item_t *x = vp_mem(SZ, 9); CALL(circular_buf_getc)(&c, nul ? NULL : x);', P, **k)
    for f in ('gets', 'peek'):
        U.proof('circular_buf_' + f, C + DAT + 'IN(int, nul); ASSUME(nul || D < len); if (!nul) VP_WATCH2(&IB(data, D)); CALL(circular_buf_%s)(&c, nul ? NULL : data, (int)len);' % f, P, cost=9, **k)
    U.proof('circular_buf_drop', C + DAT + 'CALL(circular_buf_drop)(&c, (int)len);', P, cost=5, **k)
    U.lemma('null_arguments', r'''
        item_t x; circular_buf_t c = { NULL, 0, 0, 0 };
        ASSERT("no buffer: nothing read or written", circular_buf_putc(NULL, x) != 0 && circular_buf_puts(NULL, &x, 1) == -1 && circular_buf_getc(NULL, &x) != 0
            && circular_buf_gets(NULL, &x, 1) == -1 && circular_buf_peek(NULL, &x, 1) == -1 && circular_buf_drop(NULL, 1) == -1);
        ASSERT("no buffer: empty", is_circular_buf_empty(NULL) && !is_circular_buf_full(NULL) && circular_buf_size(NULL) == 0 && circular_buf_capacity(NULL) == 0);
        circular_buf_reset(NULL);
        ASSERT("no memory", circular_buf_putc(&c, x) != 0 && circular_buf_puts(&c, &x, 1) == -1 && circular_buf_getc(&c, &x) != 0);
    ''', P, plain=True, tier=tier, unwind=4)
    # a FIFO over the contracts only: what was put comes out in the same order, through a wrap-around
    U.lemma('put_then_get_is_fifo', C + r'''
        IN(item_t, x); IN(item_t, y); ASSUME(ROOM(h, t, n) >= 2); size_t before = CNT(&c); item_t o;
        size_t s1 = h, s2 = WRAP(h + 1, n); ASSUME(K == s1 || K == s2);
        ASSERT("x fits", CALL(circular_buf_putc)(&c, x) == 0);
        ASSERT("y fits", CALL(circular_buf_putc)(&c, y) == 0);
        ASSERT("two more", CALL(circular_buf_size)(&c) == before + 2);
        ASSERT("drop the older ones", (size_t)CALL(circular_buf_drop)(&c, (int)before) == before);
        if (K == s2) CALL(circular_buf_getc)(&c, NULL);
        ASSERT("first in, first out", CALL(circular_buf_getc)(&c, &o) == 0 && IB(&o, 0) == (K == s1 ? IB(&x, 0) : IB(&y, 0)));
    ''', P, replace=['circular_buf_putc', 'circular_buf_size', 'circular_buf_drop', 'circular_buf_getc'], **k)
    U.assume = ['circular buffer: memory size at most INT_MAX items (head, tail and lengths are held in int by the code), requested lengths between 0 and INT_MAX',
                'memcpy follows its libc contract (vp.h); the caller\'s data does not overlap the buffer memory']
    return U

cbuf_unit('u8', 'uint8_t')
cbuf_unit('u32', 'uint32_t', 'thorough')

# ---------------------------------------------------------------- one producer and one consumer (C02), rely/guarantee
# The file is instrumented mechanically from the AST of the current source (vp/cast.py rely_guarantee): every read of the index
# the other thread owns is preceded by vp_env() (the other thread runs: any steps its own guarantee allows), every write of the
# index this thread owns is followed by vp_env() (the other thread can see what has been published).  Nothing is removed.
from vp import cast
RG_COMMON = r'''
#define COUNT(h, t, n) ((h) >= (t) ? (h) - (t) : (n) - (t) + (h))
#define ROOM(h, t, n) ((n) - 1 - COUNT(h, t, n))
#define WRAP(i, n) ((i) >= (n) ? (i) - (n) : (i))
#define DIST(from, to, n) ((to) >= (from) ? (to) - (from) : (n) - (from) + (to))
static circular_buf_t *C;
static uint8_t *B, *DATA;
static size_t N, K, D, LEN, G_HEAD, G_TAIL, DONE; /* DONE: items published / taken so far */
static uint8_t VAL, JUNK;
#ifdef VP_NATIVE
#define CUT(what, x) ASSERT(what, x)
#else
#define CUT(what, x) do { ASSERT(what, x); __CPROVER_assume(x); } while (0) /* shown once, then used */
#endif
typedef struct { uint8_t adv[10]; uint8_t junk[10]; } env_t;
static env_t E; static unsigned STEP;
#ifdef VP_NATIVE
typedef size_t idx_t;
#elif defined VP_IDX
typedef VP_IDX idx_t; /* values of at most BMAX + 1: fewer bits for the solver */
#else
typedef uint8_t idx_t;
#endif
#if defined BMAX && !defined VP_NATIVE
static size_t env_steps(size_t most) { idx_t s; uint8_t j; JUNK = j; __CPROVER_assume(s <= most); return s; } /* as many as it likes */
#else
static size_t env_steps(size_t most) { size_t s = E.adv[STEP % 10]; JUNK = E.junk[STEP % 10]; STEP++; return s <= most ? s : most; }
#endif
#ifndef BMAX
#define BMAX VP_IF_BOUNDED(VP_BOUNDED, 4)
#elif defined VP_NATIVE
#undef BMAX
#define BMAX 9
#endif
#define SETUP circular_buf_t c; IN(idx_t, n_); IN(idx_t, h_); IN(idx_t, t_); IN(idx_t, k_); IN(env_t, e); IN(idx_t, len_); IN(idx_t, d_); E = e; STEP = 0; \
    size_t n = n_, h = h_, t = t_, k = k_, len = len_, d = d_; \
    VP_SMALL(n, BMAX); VP_SMALL(h, n); VP_SMALL(t, n); VP_SMALL(k, n); VP_SMALL(len, BMAX + 1); VP_SMALL(d, len); \
    ASSUME(n >= 1 && n <= BMAX && h < n && t < n && k < n && len <= BMAX + 1); \
    c.buffer = vp_mem(n, 3); c.bufsize = n; c.head = h; c.tail = t; K = k; D = d; LEN = len; C = &c; B = c.buffer; N = n; G_HEAD = h; G_TAIL = t; DONE = 0; \
    DATA = vp_mem(len + 1, 101); size_t count0 = COUNT(h, t, n), room0 = ROOM(h, t, n); (void)count0; (void)room0
'''
DECL = '#include "circular_buffer.h"\nstatic void vp_env(void); static size_t vp_after(size_t);\n'
TAIL_ = r'static size_t vp_after(size_t x) { vp_env(); return x; }'
PROD = Unit('cbuf_producer', defs=['VP_MEMCPY_WATCH', 'VP_COPIED'], src=['gel/collections/circular_buffer.c'], incs=['@REPO/gel/collections'], before=DECL + RG_COMMON + r'''
static void observe(void) { /* what the consumer can rely on, checked whenever it can look */
    CUT("the producer never writes the index of the consumer", C->tail == G_TAIL && C->bufsize == N && C->buffer == B);
    CUT("the published index stays inside the memory", C->head < N);
    size_t adv = DIST(G_HEAD, C->head, N);
    CUT("the producer never publishes more than the free room", adv <= ROOM(G_HEAD, G_TAIL, N));
    if (DIST(G_TAIL, K, N) < COUNT(G_HEAD, G_TAIL, N)) CUT("stored items are never overwritten", B[K] == VAL);
    else if (DIST(G_HEAD, K, N) < adv) {
        size_t i = DONE + DIST(G_HEAD, K, N);
        CUT("only items of the caller are published", i < LEN);
        CUT("an item is complete when it is published", B[K] == DATA[i]);
        VAL = DATA[i];
    }
    DONE += (idx_t)adv; G_HEAD = C->head = (idx_t)C->head; /* the same value */
}
static void vp_env(void) { observe(); size_t s = env_steps(COUNT(G_HEAD, G_TAIL, N)); C->tail = G_TAIL = WRAP(G_TAIL + s, N); }
static size_t ROOM0;
#define STORED(k) (DIST(G_TAIL, k, N) < COUNT(G_HEAD, G_TAIL, N))
#define VP_LOOP_MUST(k, w) { observe(); __CPROVER_assert(DONE <= LEN, "vploop not more than asked for " w); __CPROVER_assert(ROOM(G_HEAD, G_TAIL, N) + DONE >= ROOM0, "vploop room " w); }
#define VP_LOOP_HAVOC(k) { idx_t h, t, d; uint8_t v; __CPROVER_assume(h < N && t < N && d <= LEN && ROOM(h, t, N) + d >= ROOM0); C->head = G_HEAD = h; C->tail = G_TAIL = t; DONE = d; \
    __CPROVER_havoc_object(B); if (STORED(K)) B[K] = VAL = v; }
''' + TAIL_)
CONS = Unit('cbuf_consumer', defs=['VP_MEMCPY_WATCH', 'VP_COPIED'], src=['gel/collections/circular_buffer.c'], incs=['@REPO/gel/collections'], before=DECL + RG_COMMON + r'''
static uint8_t ITEM; /* the value of the D-th oldest item counted from the start of the call, there already or stored meanwhile, in slot K */
static void observe(void) {
    CUT("the consumer never writes the index of the producer", C->head == G_HEAD && C->bufsize == N && C->buffer == B);
    CUT("the published index stays inside the memory", C->tail < N);
    size_t adv = DIST(G_TAIL, C->tail, N);
    CUT("the consumer never frees more than the stored items", adv <= COUNT(G_HEAD, G_TAIL, N));
    CUT("the consumer never writes the memory", B[K] == VAL);
    DONE += (idx_t)adv; G_TAIL = C->tail = (idx_t)C->tail; /* the same value */
}
static void vp_env(void) {
    observe();
    size_t s = env_steps(ROOM(G_HEAD, G_TAIL, N)), stored = COUNT(G_HEAD, G_TAIL, N);
    if (DIST(G_TAIL, K, N) >= stored) B[K] = VAL = JUNK; /* free slots belong to the producer */
    if (DIST(G_HEAD, K, N) < s && DIST(G_TAIL, K, N) >= stored && DONE + stored + DIST(G_HEAD, K, N) == D) B[K] = VAL = ITEM;
    C->head = G_HEAD = WRAP(G_HEAD + s, N);
}
/* inside the loop: COPIED items handed out so far; with CONSUME they are also taken, without DATA only taken */
static uint8_t BEFORE; static size_t T0;
#ifdef NO_DATA
#define RD DONE
#else
#define RD vp_copied
#endif
#ifdef CONSUME
#define TAKEN RD
#else
#define TAKEN 0
#endif
#define WAITS (D < N && D >= DONE && D < DONE + COUNT(G_HEAD, G_TAIL, N)) /* less than N items are handed out by one call */
#define VP_LOOP_MUST(k, w) { observe(); __CPROVER_assert(G_TAIL == WRAP(T0 + DONE, N) && DONE == TAKEN && RD < N && RD <= LEN, "vploop items taken so far " w); \
    __CPROVER_assert(VP_IMP(WAITS, VAL == ITEM), "vploop watched item waits " w); DATA_OK(w) }
#ifdef NO_DATA
#define DATA_OK(w)
#else
#define DATA_OK(w) __CPROVER_assert(DATA[D] == (D < RD ? ITEM : BEFORE), "vploop items handed out so far " w);
#endif
#define VP_LOOP_HAVOC(k) { idx_t rd, h; size_t seen = DONE + COUNT(G_HEAD, G_TAIL, N); uint8_t v; RD = rd; __CPROVER_assume(rd < N && rd <= LEN && h < N); DONE = TAKEN; C->tail = G_TAIL = WRAP(T0 + DONE, N); C->head = G_HEAD = h; \
    __CPROVER_assume(DONE + COUNT(G_HEAD, G_TAIL, N) >= seen); __CPROVER_havoc_object(B); B[K] = VAL = WAITS ? ITEM : v; DATA_ANY }
#ifdef NO_DATA
#define DATA_ANY
#else
#define DATA_ANY __CPROVER_havoc_object(DATA); DATA[D] = D < RD ? ITEM : BEFORE;
#endif
''' + TAIL_)
def producer_view(work, incs): return {'gel/collections/circular_buffer.c': cast.rely_guarantee('gel/collections/circular_buffer.c', 'tail', 'head', work, incs)[0]}
def consumer_view(work, incs): return {'gel/collections/circular_buffer.c': cast.rely_guarantee('gel/collections/circular_buffer.c', 'head', 'tail', work, incs)[0]}
kp = dict(plain=True, transform=producer_view, unwind=8, bound='memory of at most 4 slots, at most 5 items per call; every schedule', timeout=300)
kc = dict(plain=True, transform=consumer_view, unwind=8, bound='memory of at most 4 slots, at most 5 items per call; every schedule', timeout=300)
P2 = ['C02']
PS = 'SETUP; VP_WATCH1(&B[K]); VAL = B[K]; '
PROD.lemma('producer_puts', PS + r'''
    int r = circular_buf_puts(&c, DATA, len); observe();
    ASSERT("returns the number of items published", r >= 0 && (size_t)r == DONE);
    ASSERT("stores at least what had room at the start", (size_t)r >= VP_MIN(len, room0) && (size_t)r <= len);''', P2, **kp)
PROD.lemma('producer_putc', PS + r'''
    LEN = 1; ASSUME(len >= 1); int r = circular_buf_putc(&c, DATA[0]); observe();
    ASSERT("success exactly when the item was published", (r == 0) == (DONE == 1) && DONE <= 1);
    ASSERT("accepted if there was room at the start", VP_IMP(room0 > 0, r == 0));''', P2, **kp)
Q = r'''
    size_t r = circular_buf_size(&c); observe(); size_t end = COUNT(c.head, c.tail, N);
    ASSERT("size is between the counts before and after", r >= VP_MIN(count0, end) && r <= VP_MAX(count0, end));
    circular_buf_t s = c; size_t c1 = end; int full = is_circular_buf_full(&c); observe(); size_t c2 = COUNT(c.head, c.tail, N);
    ASSERT("full was true at some moment", VP_IMP(full, c1 == N - 1 || c2 == N - 1) && VP_IMP(!full, c1 < N - 1 || c2 < N - 1));
    int empty = is_circular_buf_empty(&c); observe(); size_t c3 = COUNT(c.head, c.tail, N);
    ASSERT("empty was true at some moment", VP_IMP(empty, c2 == 0 || c3 == 0) && VP_IMP(!empty, c2 > 0 || c3 > 0));
    ASSERT("looking changes nothing", DONE == 0 && circular_buf_capacity(&c) == N - 1);'''
PROD.lemma('producer_queries', PS + Q, P2, **kp)
CS = 'SETUP; IN(uint8_t, item); ASSUME(D <= len); K = vp_mod(t + D, n); ITEM = item; VP_WATCH1(&B[K]); if (D < count0) B[K] = ITEM; VAL = B[K]; uint8_t before = DATA[D]; VP_WATCH2(&DATA[D]); '
for f in ('gets', 'peek', 'drop'):
    CONS.lemma('consumer_' + f, CS + r'''
    int r = circular_buf_%s(&c, %s(int)len); observe();
    ASSERT("%s", r >= 0 && %s);
    ASSERT("at least what was stored at the start", (size_t)r >= VP_MIN(len, count0) && (size_t)r <= len);
    %s''' % (f, '' if f == 'drop' else 'DATA, ', 'peek takes nothing' if f == 'peek' else 'returns the number of items taken',
             'DONE == 0' if f == 'peek' else '(size_t)r == DONE',
             '' if f == 'drop' else 'ASSERT("the items come out intact and in order, nothing is written beyond them", DATA[D] == (D < (size_t)r ? ITEM : before));'), P2, **kc)
CONS.lemma('consumer_getc', CS + r'''
    ASSUME(D == 0); int r = circular_buf_getc(&c, DATA); observe();
    ASSERT("success exactly when an item was taken", (r == 0) == (DONE == 1) && DONE <= 1);
    ASSERT("succeeds if something was stored at the start", VP_IMP(count0 > 0, r == 0));
    ASSERT("the item comes out intact", DATA[0] == (r == 0 ? ITEM : before));''', P2, **kc)
CONS.lemma('consumer_queries', CS + Q, P2, **kc)
for U in (PROD, CONS):
    U.assume = ['one producer thread and one consumer thread; memory accesses are sequentially consistent and index accesses are atomic (the code has no barriers or volatile: compiler and hardware reordering is not modelled)',
                'the other thread moves only its own index, within the stored items / the free room, and only the producer writes free slots (its own guarantee, checked by the jobs of the other role)']
# any capacity the code can handle (head and tail pass through int); the block operations up to 254 slots (65534 in the thorough check)
ka = dict(plain=True, unwind=3, timeout=400, defs=['BMAX=0x7ffffffe', 'VP_IDX=uint32_t', 'VP_MOD_ABSTRACT'])
def sizes(quick): return [(s, dict(plain=True, unwind=3, timeout=400 if s == quick else 2800, tier='quick' if s == quick else 'thorough', bound='capacity of at most %d slots; every schedule' % s,
    defs=['BMAX=%d' % s, 'VP_IDX=' + i, 'VP_MOD_ABSTRACT'])) for s, i in ((254, 'uint8_t'), (65534, 'uint16_t')) if s >= quick]
PROD.lemma('producer_putc/any_capacity', PS + r'''
    LEN = 1; ASSUME(len >= 1); int r = circular_buf_putc(&c, DATA[0]); observe();
    ASSERT("success exactly when the item was published", (r == 0) == (DONE == 1) && DONE <= 1);
    ASSERT("accepted if there was room at the start", VP_IMP(room0 > 0, r == 0));''', P2, **dict(ka, transform=producer_view))
CONS.lemma('consumer_getc/any_capacity', CS + r'''
    ASSUME(D == 0); int r = circular_buf_getc(&c, DATA); observe();
    ASSERT("success exactly when an item was taken", (r == 0) == (DONE == 1) && DONE <= 1);
    ASSERT("succeeds if something was stored at the start", VP_IMP(count0 > 0, r == 0));
    ASSERT("the item comes out intact", DATA[0] == (r == 0 ? ITEM : before));''', P2, **dict(ka, transform=consumer_view))
PROD.lemma('producer_queries/any_capacity', PS + Q, P2, **dict(ka, transform=producer_view))
CONS.lemma('consumer_queries/any_capacity', CS + Q, P2, **dict(ka, transform=consumer_view))

def wrong(right, templates): return ['@v ' + t.replace('@v', v) for v, r in right.items() for t in templates if t not in r]
LT = ['@v == (__typeof__(@v))DONE', '@v == (__typeof__(@v))G_HEAD', '@v == (__typeof__(@v))(LEN - DONE)']
for m, kb in sizes(254):
  PROD.lemma('producer_puts/capacity_%d' % m, PS + r"""
    ROOM0 = room0; int r = circular_buf_puts(&c, DATA, len); observe();
    ASSERT("returns the number of items published", r >= 0 && (size_t)r == DONE);
    ASSERT("stores at least what had room at the start", (size_t)r >= VP_MIN(len, room0) && (size_t)r <= len);""", P2,
    loops=dict(generic=[], int=LT, ptr=['@d == (long)DONE'], inv=[], hint=wrong(dict(head=LT[1:2], len=LT[2:], written=LT[:1], tail=[]), LT) + ['data == entry', 'data == entry + k', 'data == entry - k']), **dict(kb, transform=producer_view))
AV = '(size_t)@v <= DONE + COUNT(G_HEAD, G_TAIL, N) - RD'
CT = ['@v == (__typeof__(@v))RD', 'RD <= (size_t)@e && @v == (__typeof__(@v))(@e - RD)', '@v == (__typeof__(@v))WRAP(T0 + RD, N)', AV]
for f, m, kb in [(f, m, kb) for f in ('gets', 'peek', 'drop') for m, kb in sizes(65534 if f == 'peek' else 254)]:
    CONS.lemma('consumer_%s/capacity_%d' % (f, m), CS + r"""
    BEFORE = before; T0 = t;
    int r = circular_buf_%s(&c, %s(int)len); observe();
    ASSERT("%s", r >= 0 && %s);
    ASSERT("at least what was stored at the start", (size_t)r >= VP_MIN(len, count0) && (size_t)r <= len);
    %s""" % (f, '' if f == 'drop' else 'DATA, ', 'peek takes nothing' if f == 'peek' else 'returns the number of items taken',
             'DONE == 0' if f == 'peek' else '(size_t)r == DONE',
             '' if f == 'drop' else 'ASSERT("the items come out intact and in order, nothing is written beyond them", DATA[D] == (D < (size_t)r ? ITEM : before));'), P2,
    loops=dict(generic=[], int=CT, ptr=['@d == (long)RD'] if f != 'drop' else [], hint=wrong(dict(read=CT[:1], len=[CT[1], AV], tail=CT[2:3]), CT) + ['data == entry + k', 'data == entry - k'] + (['data == entry'] if f != 'drop' else [])), **dict(kb, transform=consumer_view, defs=kb['defs'] + {'gets': ['CONSUME'], 'peek': [], 'drop': ['CONSUME', 'NO_DATA']}[f]))
