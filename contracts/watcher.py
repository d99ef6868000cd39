from vp.core import Unit, VERIF

def watcher(tag, incs, defs, tier, old_ptr):
    W = Unit('watcher' + tag, src=['gel/data_structures/watcher.c'], incs=incs, before='\n'.join('#define ' + d for d in defs) + '\n#include "data_structures/watcher.h"', spec=r'''
typedef unsigned long ul;
#define HALF ((ul)-1 / 2)
#define MAXLEN 6
#define NMAX 3
typedef struct { uint8_t b[MAXLEN]; } mem_t;
typedef struct { mem_t old[NMAX], cur[NMAX]; size_t size[NMAX], n; ul stamp[NMAX], delay[NMAX], now; uint8_t moved[NMAX]; } in_t;
static mem_t CUR[NMAX], OLD[NMAX]; static int DATA[NMAX], FIRED[NMAX], WRONG; static watcher_t L_NULL, L[NMAX + 1], L0[NMAX + 1];
static void cb(void *mem, void *data) {
    int hit = 0;
    for (int k = 0; k < NMAX; k++) if (data == (void *)&DATA[k]) { FIRED[k]++; hit = 1; if (mem != (void *)&CUR[k]) WRONG = 1; }
    if (!hit) WRONG = 1;
}
static int differs(in_t *i, int k) { int r = 0; for (size_t j = 0; j < MAXLEN; j++) if (j < i->size[k] && i->old[k].b[j] != i->cur[k].b[j]) r = 1; return r; }
static int elapsed(in_t *i, int k) { return (ul)(i->now - i->stamp[k]) >= L0[k].delay; }
static void setup(in_t *i) {
    static const watcher_t zero; L_NULL = zero;
    for (int k = 0; k <= NMAX; k++) L[k] = L_NULL; WRONG = 0;
    for (int k = 0; k < NMAX; k++) {
        FIRED[k] = 0; CUR[k] = i->cur[k]; OLD[k] = i->old[k];
        if (k < (int)i->n) {
#ifdef OLD_PTR
            L[k].old = OLD[k].b;
#else
            for (int b = 0; b < MAXLEN; b++) L[k].old[b] = i->old[k].b[b];
#endif
            L[k].current = CUR[k].b; L[k].size = i->size[k]; L[k].cb = cb; L[k].data = &DATA[k];
            L[k].timestamp = i->stamp[k]; L[k].delay = i->delay[k]; L[k].moved = i->moved[k] & 1;
        }
        L0[k] = L[k];
    }
    L0[NMAX] = L[NMAX];
}
static uint8_t old_byte(int k, size_t j) { return ((uint8_t *)L[k].old)[j]; }
static int kept(int k) { /* everything but the remembered value, the timestamp and the pending flag */
    return L[k].current == L0[k].current && L[k].size == L0[k].size && L[k].cb == L0[k].cb && L[k].data == L0[k].data && L[k].delay == L0[k].delay;
}
static int cur_kept(in_t *i, int k, size_t j) { return CUR[k].b[j] == i->cur[k].b[j]; }
''', stubs=r'''
void *memcpy(void *d, const void *s, size_t n) { for (size_t k = 0; k < n; k++) ((uint8_t *)d)[k] = ((const uint8_t *)s)[k]; return d; }
''')
    if old_ptr: W.spec = '#define OLD_PTR 1\n' + W.spec
    IN = r'''
    IN(in_t, i); IN(size_t, j); VP_SMALL(i.n, 3); VP_SMALL(j, 5); VP_SMALL(i.size[0], 6); VP_SMALL(i.size[1], 6); VP_SMALL(i.size[2], 6);
#ifdef VP_RANDOM
    for (int k = 0; k < NMAX; k++) { i.delay[k] %= 9; i.stamp[k] = i.now - i.stamp[k] % 12; if (vp_rnd() % 2) { i.old[k] = i.cur[k]; if (i.size[k] && vp_rnd() % 2) i.old[k].b[vp_rnd() % i.size[k]] ^= 1; } }
#endif
    ASSUME(i.n <= NMAX && j < MAXLEN);
    for (int k = 0; k < NMAX; k++) ASSUME(i.size[k] >= 1 && i.size[k] <= MAXLEN && i.delay[k] <= DELAYMAX && (ul)(i.now - i.stamp[k]) <= HALF);
    setup(&i);
'''.replace('DELAYMAX', '65535' if 'small' in tag else 'HALF')
    k = dict(plain=True, unwind=10, bound='lists of at most 3 elements of at most 6 bytes', tier=tier, cost=6)
    P = ['C11']
    W.lemma('init_remembers_the_current_values', IN + r'''
    watcher_list_init(L);
    for (int k = 0; k < NMAX; k++) {
        if (k < (int)i.n) ASSERT("current value remembered", VP_IMP(j < i.size[k], old_byte(k, j) == i.cur[k].b[j]));
        ASSERT("nothing else", kept(k) && cur_kept(&i, k, j) && FIRED[k] == 0);
    }
    if (i.n == 3) ASSERT("no change right after", !watcher_check_for_changes(L));
    ''', P, **k)
    W.lemma('check_reports_changes_and_leaves_them', IN + r'''
    int any = 0; for (int k = 0; k < NMAX; k++) if (k < (int)i.n && differs(&i, k)) any = 1;
    int r = watcher_check_for_changes(L);
    ASSERT("1 if any element changed, 0 otherwise", r == any);
    for (int k = 0; k < NMAX; k++) {
        ASSERT("nothing updated, no callback", kept(k) && cur_kept(&i, k, j) && FIRED[k] == 0 && L[k].timestamp == L0[k].timestamp && L[k].moved == L0[k].moved);
        if (k < (int)i.n) ASSERT("remembered value kept", VP_IMP(j < i.size[k], old_byte(k, j) == i.old[k].b[j]));
    }
    ''', P, **k)
    W.lemma('process_fires_each_change_once', IN + r'''
    int any = 0; for (int k = 0; k < NMAX; k++) if (k < (int)i.n && differs(&i, k)) any = 1;
    int r = watcher_process_changes(L, i.now);
    ASSERT("1 if any element changed, 0 otherwise", r == any);
    ASSERT("callbacks get their own memory and data", !WRONG);
    for (int k = 0; k < NMAX; k++) {
        ASSERT("watched memory not touched", kept(k) && cur_kept(&i, k, j));
        if (k >= (int)i.n) { ASSERT("nothing beyond the end", FIRED[k] == 0); continue; }
        ASSERT("current value remembered", VP_IMP(j < i.size[k], old_byte(k, j) == i.cur[k].b[j]));
        int now = differs(&i, k) ? L0[k].delay == 0 : L0[k].moved && elapsed(&i, k);
        ASSERT("callback at once without delay, after the delay since the last change otherwise", FIRED[k] == now);
        ASSERT("a delayed change is pending until then", (L[k].moved != 0) == (differs(&i, k) ? L0[k].delay > 0 : L0[k].moved && !elapsed(&i, k)));
        ASSERT("the delay counts from the last change", VP_IMP(L[k].moved, L[k].timestamp == (differs(&i, k) ? i.now : i.stamp[k])));
    }
    ''', P, **k)
    W.lemma('clear_forgets_changes_without_callback', IN + r'''
    watcher_clear_changes(L, i.now);
    for (int k = 0; k < NMAX; k++) {
        ASSERT("no callback, watched memory not touched", FIRED[k] == 0 && kept(k) && cur_kept(&i, k, j));
        if (k >= (int)i.n) continue;
        ASSERT("current value remembered", VP_IMP(j < i.size[k], old_byte(k, j) == i.cur[k].b[j]));
        ASSERT("a cleared change is not pending", VP_IMP(differs(&i, k) && L0[k].delay > 0, !L[k].moved));
        ASSERT("an element that did not change keeps its state", VP_IMP(!differs(&i, k), L[k].moved == L0[k].moved && L[k].timestamp == L0[k].timestamp));
    }
    ''', P, **k)
    for f in ('watcher_trigger_all', 'watcher_trigger_all_cb'):
        W.lemma(f + '_fires_every_callback_once', ('void watcher_trigger_all_cb(watcher_t *list);' if f.endswith('cb') else '') + IN + r'''
    %s(L);
    ASSERT("callbacks get their own memory and data", !WRONG);
    for (int k = 0; k < NMAX; k++) {
        ASSERT("once each", FIRED[k] == (k < (int)i.n));
        ASSERT("nothing updated", kept(k) && cur_kept(&i, k, j) && L[k].timestamp == L0[k].timestamp && L[k].moved == L0[k].moved && (k >= (int)i.n || old_byte(k, j) == i.old[k].b[j]));
    }
    ''' % f, P, **k)
    W.lemma('trigger_fires_the_callback_of_that_element', IN + r'''
    IN(int, at); VP_SMALL(at, 2); ASSUME(at >= 0 && (size_t)at < i.n);
    watcher_trigger_cb(L, at);
    for (int k = 0; k < NMAX; k++) ASSERT("that one, once", FIRED[k] == (k == at) && !WRONG && kept(k));
    ''', P, **k)
    W.lemma('descriptions', r'''
    uint16_t v[3]; int d; IN(uint16_t, delay);
    watcher_t a = WATCHER(&v[0], cb, &d), b = WATCHER_ARRAY(v, 3, cb, &d), c = WATCHER_DELAYED(&v[0], cb, &d, delay), e = WATCHER_DELAYED_ARRAY(v, 3, cb, &d, delay), z = WATCHER_NULL;
    ASSERT("WATCHER", a.current == &v[0] && a.size == 2 && a.cb == cb && a.data == &d && a.delay == 0 && a.moved == 0 && a.timestamp == 0);
    ASSERT("WATCHER_ARRAY", b.current == v && b.size == 6 && b.cb == cb && b.data == &d && b.delay == 0 && b.moved == 0 && b.timestamp == 0);
    ASSERT("WATCHER_DELAYED", c.current == &v[0] && c.size == 2 && c.cb == cb && c.data == &d && c.delay == delay && c.moved == 0 && c.timestamp == 0);
    ASSERT("WATCHER_DELAYED_ARRAY", e.current == v && e.size == 6 && e.cb == cb && e.data == &d && e.delay == delay && e.moved == 0 && e.timestamp == 0);
    ASSERT("WATCHER_NULL ends a list", z.current == NULL);
    ''', P, plain=True, tier=tier)
    W.assume = ['elements are 1..GEL_STATIC_BLOCK_SIZE bytes; callbacks do not change the list; instants less than half the timestamp range apart']

watcher('', [], [], 'quick', 0)
watcher('_malloc', [VERIF + '/vp/conf_malloc'], [], 'quick', 1)
watcher('_small', [], ['GEL_WATCHER_REDUCE_RAM_FOOTPRINT 1'], 'thorough', 0)
