"""C11 for lists of any length and elements of any size: loop invariants (vp/loops.py) over the real loops of watcher.c.
Element j is described by functions of j; whether its remembered bytes differ from the current ones is DIFF(j), whether they are
equal by now is the ghost EQ, which only memcpy of the whole element changes and only memcmp of the whole element reads (their libc
contracts).  The loop is followed for one arbitrary iteration and one arbitrary watched element W."""
from vp.core import Unit, VERIF

def lists(tag, incs, malloc_):
    pre = '#include "data_structures/watcher.h"\n' + ('#define OLD_PTR 1\n' if malloc_ else '') + r'''
#ifndef VP_NATIVE
#undef assert
#define assert(x)
#endif
typedef unsigned long ul;
#define HALF ((ul)-1 / 2)
static size_t N, W; static int FIRED, WRONG; static ul NOW;
#ifdef VP_NATIVE
#define VP_MAXLIST 400
#define MAXLEN NATLEN
static struct { uint8_t old[MAXLEN], cur[MAXLEN]; uint16_t size; uint8_t moved; ul stamp, delay; } EL[VP_MAXLIST + 1];
#define OLD_KEPT(e, j) OLDNAT
static uint8_t CURB[VP_MAXLIST + 1][MAXLEN], OLDB[VP_MAXLIST + 1][MAXLEN], DATA[VP_MAXLIST + 1];
static watcher_t *LS;
#define LIST LS
#define EL_W (&LS[W])
#define END (LS[N].current == NULL)
#define DIFF(j) (memcmp(EL[j].old, EL[j].cur, EL[j].size) != 0)
#define SIZE(j) ((size_t)EL[j].size)
#define STAMP(j) EL[j].stamp
#define DELAY(j) EL[j].delay
#define MOVED(j) EL[j].moved
#define MEM(j) ((void *)CURB[j])
#define DAT(j) ((void *)&DATA[j])
#define UNTOUCHED(j) (memcmp(CURB[j], EL[j].cur, MAXLEN) == 0)
#define EQW (memcmp(LS[W].old, LS[W].current, LS[W].size) == 0)
static int ANY(size_t n) { for (size_t j = 0; j < n; j++) if (DIFF(j)) return 1; return 0; }
static size_t firstdiff(void) { for (size_t j = 0; j < N; j++) if (DIFF(j)) return j; return N; }
#define CK firstdiff()
static void cb(void *mem, void *data) { size_t j = (size_t)((uint8_t *)data - DATA); if (j >= N || mem != MEM(j)) WRONG = 1; else if (j == W) FIRED++; }
#else
#define VP_MAXLIST ((size_t)INT_MAX)
static watcher_t E[1], EW; static long VPBASE; /* E is the element the current iteration looks at (the array seen through a window), EW the watched one when that is another */
static size_t CK, J; static int EQW, EQK; static uint8_t OB, MW[1], MK[1], DW, DK, OW[1], OK_[1];
unsigned char __CPROVER_uninterpreted_diff(size_t j); size_t __CPROVER_uninterpreted_size(size_t j); ul __CPROVER_uninterpreted_stamp(size_t j); ul __CPROVER_uninterpreted_delay(size_t j);
unsigned char __CPROVER_uninterpreted_moved(size_t j); unsigned char __CPROVER_uninterpreted_any(size_t j);
#define LIST E
#define EL_W (W == CK ? &E[0] : &EW)
#define END (CK != N || E[0].current == NULL)
#define DIFF(j) (__CPROVER_uninterpreted_diff(j) != 0)
#define SIZE(j) __CPROVER_uninterpreted_size(j)
#define STAMP(j) __CPROVER_uninterpreted_stamp(j)
#define DELAY(j) __CPROVER_uninterpreted_delay(j)
#define MOVED(j) __CPROVER_uninterpreted_moved(j)
#define ANY(j) (__CPROVER_uninterpreted_any(j) != 0) /* one of the first j elements differs */
#define MEM(j) ((void *)((j) == W ? MW : MK)) /* the loop looks at one element per iteration: two places are enough */
#define DAT(j) ((void *)((j) == W ? &DW : &DK))
#define OLDP(j) ((void *)((j) == W ? OW : OK_))
#define UNTOUCHED(j) 1 /* by the frame condition */
static void cb(void *mem, void *data) { if (data == (void *)&DW && mem == (void *)MW) FIRED++; else if (data != (void *)&DK || mem != (void *)MK) WRONG = 1; }
static int eq(void) { return CK == W ? EQW : EQK; }
int memcmp(const void *a, const void *b, size_t n) {
    int r;
    if ((a == (void *)E[0].old && b == E[0].current || b == (void *)E[0].old && a == E[0].current) && n == SIZE(CK)) __CPROVER_assume((r == 0) == (eq() != 0));
    return r;
}
void *memcpy(void *d, const void *s, size_t n) {
    if (d == (void *)E[0].old && s == E[0].current && n == SIZE(CK)) { if (CK == W) EQW = 1; else EQK = 1; COPIED } else WRONG = 1;
    return d;
}
#endif
static int listed(size_t j) { return SIZE(j) >= 1 && SIZE(j) <= BLOCK && DELAY(j) <= HALF && MOVED(j) <= 1 && (ul)(NOW - STAMP(j)) <= HALF; }
static int elapsed(size_t j) { return (ul)(NOW - STAMP(j)) >= DELAY(j); }
static int described(watcher_t *e, size_t j) { return e->current == MEM(j) && e->size == SIZE(j) && e->cb == cb && e->data == DAT(j) && e->delay == DELAY(j); }
static int asbefore(watcher_t *e, size_t j) { return (e->moved != 0) == (MOVED(j) != 0) && e->timestamp == STAMP(j); }
#ifndef VP_NATIVE
static void put(watcher_t *e, size_t j) { e->current = MEM(j); e->size = SIZE(j); e->cb = cb; e->data = DAT(j); e->delay = DELAY(j); e->timestamp = STAMP(j); e->moved = MOVED(j); OLDSET }
static int old_ok(watcher_t *e, size_t j) { return OLDOK; }
#define OLD_KEPT(e, j) old_ok((e), (j))
/* MODE: what an element looks like once the loop has passed it */
#define PASSED(e, j) (PASS((e), (j)) && OLDKEPT(e, j))
#define VP_LOOP_MUST(k, w) __CPROVER_assert((k) <= N, "vploop inside the list " w); __CPROVER_assert(!WRONG, "vploop callbacks get their own memory and data, memory is copied whole " w); \
    if (W < N) { watcher_t *e = EL_W; __CPROVER_assert(described(e, W), "vploop descriptions kept " w); __CPROVER_assert(W < (k) ? PASSED(e, W) : old_ok(e, W) && asbefore(e, W) && (EQW != 0) == !DIFF(W) && FIRED == 0, "vploop elements passed are handled, the others untouched " w); } \
    __CPROVER_assert(END, "vploop end of list " w);
#define VP_LOOP_HAVOC(k) { __CPROVER_assume((k) <= N); CK = (k); WRONG = 0; { watcher_t nd; E[0] = nd; OBSET } \
    if ((k) < N) { __CPROVER_assume(listed(k)); put(&E[0], (k)); EQK = !DIFF(k); } else E[0].current = NULL; \
    if (W < N) { if (W < (k)) { put(&EW, W); uint8_t m; ul t; int q, f; EW.moved = m; EW.timestamp = t; EQW = q; FIRED = f; RENEW __CPROVER_assume(PASSED(&EW, W)); } else { if (W > (k)) put(&EW, W); EQW = !DIFF(W); FIRED = 0; } } }
#define VP_LOOP_ASSUME(k) if ((k) < N) __CPROVER_assume(ANY((k) + 1) == (ANY(k) || DIFF(k)));
static void list_of(size_t n) {
    { size_t j; __CPROVER_assume(j < BLOCK); J = j; } CK = 0; VPBASE = 0; FIRED = 0; WRONG = 0; { watcher_t nd; E[0] = nd; OBSET } __CPROVER_assume(!ANY(0));
    if (n) { __CPROVER_assume(listed(0)); put(&E[0], 0); EQK = !DIFF(0); } else E[0].current = NULL;
    if (W < n) { __CPROVER_assume(listed(W)); if (W) put(&EW, W); EQW = !DIFF(W); }
}
#else
#define PASSED(e, j) (PASS((e), (j)) && OLDKEPT(e, j))
static void list_of(size_t n) {
    LS = calloc(n + 1, sizeof(watcher_t)); FIRED = 0; WRONG = 0;
    for (size_t j = 0; j < n; j++) {
        watcher_t *e = &LS[j]; ASSUME(listed(j)); memcpy(CURB[j], EL[j].cur, MAXLEN); memcpy(OLDB[j], EL[j].old, MAXLEN);
#ifdef OLD_PTR
        e->old = OLDB[j];
#else
        memcpy(e->old, EL[j].old, MAXLEN);
#endif
        e->current = MEM(j); e->size = SIZE(j); e->cb = cb; e->data = DAT(j); e->delay = DELAY(j); e->timestamp = STAMP(j); e->moved = MOVED(j);
    }
}
#endif
'''
    pre = pre.replace('NATLEN', '300' if malloc_ else '80').replace('BLOCK', '((size_t)1 << 40)' if malloc_ else 'sizeof LIST->old').replace('OLDNAT', '((e)->old == OLDB[j])' if malloc_ else '1').replace('OBSET', '' if malloc_ else 'OB = nd.old[J];').replace('COPIED', '' if malloc_ else 'uint8_t b; E[0].old[J] = OB = b; ').replace('OLDSET', 'e->old = OLDP(j);' if malloc_ else '').replace('OLDOK', 'e->old == OLDP(j)' if malloc_ else 'e != &E[0] || e->old[J] == OB')
    SET = r'''
    IN(size_t, n); IN(size_t, w); IN(ul, now);
#ifdef VP_RANDOM
    n = vp_rnd() % 3 ? vp_rnd() % 12 : 120 + vp_rnd() % 160; w = vp_rnd() % (n + 1); unsigned rare = vp_rnd() % 4, calm = vp_rnd() % 2;
    for (size_t j = 0; j < n; j++) { EL[j].size = 1 + vp_rnd() % (vp_rnd() % 8 ? 6 : MAXLEN); vp_fill(EL[j].cur, MAXLEN); memcpy(EL[j].old, EL[j].cur, MAXLEN); EL[j].moved = vp_rnd() % 2; EL[j].delay = vp_rnd() % 9; EL[j].stamp = now - vp_rnd() % 12;
        if (!calm && vp_rnd() % (rare ? 40 : 2) == 0) EL[j].old[vp_rnd() % 2 ? EL[j].size - 1 : vp_rnd() % EL[j].size] ^= 1; }
#endif
    ASSUME(n <= VP_MAXLIST); N = n; W = w; NOW = now; list_of(n);
'''
    MADE = []
    def fn(proto, name, call, passed, ensures, requires=(), renew='', n_assigns='OBJ(E), EW, VPBASE, OB, FIRED, WRONG, CK, EQW, EQK', loops=None, **k):
        U = Unit('watcher_list_%s%s' % (name.replace('watcher_', ''), tag), src=['gel/data_structures/watcher.c'], incs=incs, before=('#define PASS(e, j) (%s)\n#define RENEW %s\n#define OLDKEPT(e, j) %s\n' % (passed, renew, '1' if renew else 'OLD_KEPT(e, j)')) + pre)
        ens = {'descriptions_kept': 'VP_IMP(W < N, described(EL_W, W) && UNTOUCHED(W)) && END', 'each_element_handled_as_specified': 'VP_IMP(W < N, PASSED(EL_W, W)) && !WRONG'}
        ens.update(ensures)
        U.contract(proto, requires=['list == LIST && FIRED == 0 && !WRONG'] + list(requires), assigns=n_assigns, ensures=ens)
        U.proof(name, SET + 'CALL(%s)(%s);' % (name, call), ['C11'], name=name.replace('watcher_', '') + '/any_length', unwind=4, cost=9, loops=dict(window=('E', 'watcher_t'), **(loops or dict(generic=[' + k', '']))), **k)
        U.assume = ['watch lists of at most INT_MAX elements whose memories do not overlap', 'elements of 1 byte to 2^40 bytes (static configuration: to GEL_STATIC_BLOCK_SIZE); instants less than half the timestamp range apart', 'callbacks change nothing the library sees',
                    'memcmp and memcpy by their contracts on whole elements']
        MADE.append(U)
    same = 'asbefore(e, j) && (EQW != 0) == !DIFF(j)'
    keep = 'VP_IMP(W < N, %s)'
    fn('int watcher_check_for_changes(watcher_t *list)', 'watcher_check_for_changes', 'LIST', '(EQW != 0) == !DIFF(j) && asbefore(e, j) && FIRED == 0 && (j >= CK || !DIFF(j))',
       {'answers_1_for_the_first_difference': r'VP_IMP(\result, \result == 1 && CK < N && DIFF(CK))', 'answers_0_only_without_any': r'VP_IMP(!\result && W < N, !DIFF(W))'})
    fn('int watcher_process_changes(watcher_t *list, unsigned long timestamp)', 'watcher_process_changes', 'LIST, now',
       'EQW && (e->moved != 0) == (DIFF(j) ? DELAY(j) > 0 : MOVED(j) && !elapsed(j)) && VP_IMP(e->moved, e->timestamp == (DIFF(j) ? NOW : STAMP(j))) && FIRED == (DIFF(j) ? DELAY(j) == 0 : MOVED(j) && elapsed(j))',
       {'answers_whether_anything_changed': r'\result == ANY(N)'}, ['timestamp == NOW'], loops=dict(generic=[' + k'], int=['@v == (__typeof__(@v))ANY(@k)']))
    fn('void watcher_clear_changes(watcher_t *list, unsigned long timestamp)', 'watcher_clear_changes', 'LIST, now',
       'EQW && FIRED == 0 && (DIFF(j) ? VP_IMP(DELAY(j) > 0, !e->moved) : asbefore(e, j))', {}, ['timestamp == NOW'])
    fn('void watcher_trigger_all(watcher_t *list)', 'watcher_trigger_all', 'LIST', same + ' && FIRED == 1', {})
    fn('void watcher_trigger_all_cb(watcher_t *list)', 'watcher_trigger_all_cb', 'LIST', same + ' && FIRED == 1', {})
    fn('void watcher_list_init(watcher_t *list)', 'watcher_list_init', 'LIST', 'asbefore(e, j) && EQW && FIRED == 0', {}, renew='{ void *nd; EW.old = nd; }' if malloc_ else '')

lists('', [], 0)
lists('_malloc', [VERIF + '/vp/conf_malloc'], 1)
