"""C10 for lists of any length (loop invariants found by vp/loops.py): one arbitrary iteration, one arbitrary watched key W"""
import keypad as K_
from vp.core import Unit

SPEC = K_.K.spec + r'''
static size_t N, W; static call_t C;
#ifdef VP_NATIVE
#define VP_MAXLIST 400
static key_t_ *KS, K0[VP_MAXLIST + 1];
#define LIST KS
#define EL_W KS[W]
#define END (KS[N].bitvalue == 0)
static key_t_ KEY(size_t j) { return K0[j]; }
#else
#define VP_MAXLIST ((size_t)INT_MAX - 1)
static size_t CK; static key_t_ E[1], EW; static long VPBASE; /* E: key number VPBASE (the list seen through a window), EW: the watched key when that is another one */
#define LIST E
#define EL_W (*((long)W == VPBASE ? &E[0] : &EW))
#define END (VPBASE != (long)N || E[0].bitvalue == 0)
/* key j is what it was at the call: KW the watched one, KK the one of this iteration, KF the last one pressed before it (each arbitrary) */
static key_t_ KW, KK, KF; static long FK;
long __CPROVER_uninterpreted_lastp(size_t j);
#define LASTP(j) __CPROVER_uninterpreted_lastp(j) /* the last pressed key among the first j, -1 if none */
static key_t_ KEY(size_t j) { return j == W && W < N ? KW : (long)j == FK ? KF : KK; }
static int listed(size_t j);
static void look(size_t k) { /* at key k */
    key_t_ kk, kf; CK = k; KK = kk; FK = LASTP(k); KF = kf;
    if (k == W && W < N) KK = KW; if (k >= N) KK.bitvalue = 0; if (FK == (long)W) KF = KW;
    __CPROVER_assume(FK >= -1 && FK < (long)(k ? k : 1) && VP_IMP(k == 0, FK == -1)); /* by its definition */
    __CPROVER_assume(listed(k));
}
#endif
static int listed(size_t j) { key_t_ k = KEY(j); return j >= N || (k.bitvalue != 0 && STATE_OK(k) && TIMES_OK(C, k)); }
static int stops(size_t j) { key_t_ k = KEY(j); return !pressed(k, C) && (let_go(k, C) || pending(k, C)); }
#ifdef VP_NATIVE
static long LASTP(size_t n) { long r = -1; for (size_t j = 0; j < n; j++) if (pressed(KEY(j), C)) r = (long)j; return r; }
static size_t expected(void) { for (size_t j = 0; j < N; j++) if (stops(j)) return j; return N; }
#define CK expected()
#endif
'''
ROUTINE = SPEC + r'''
/* key j once the search is past the first k */
static key_t_ at(size_t k, size_t j) { key_t_ r = KEY(j); if (j < k && pressed(r, C)) r._state.value = 1; return r; }
static long found(void) { return CK < N ? (long)CK : LASTP(N); }
static step_t want(void) { key_t_ k = at(CK, (size_t)found()); return step(k, C, down(KEY((size_t)found()), C)); }
#define VP_LOOP_MUST(k, w) __CPROVER_assert((k) <= N, "vploop inside the list " w); { long f = LASTP(k); __CPROVER_assert(f >= -1 && f < (long)(k) && (f < 0 || pressed(KEY((size_t)f), C)), "vploop last pressed key " w); } \
    if (W < N) { __CPROVER_assert(same_key(EL_W, at(k, W)), "vploop keys passed that are down are marked, nothing else " w); __CPROVER_assert(VP_IMP(W < (k), !stops(W)), "vploop no key passed was let go " w); } __CPROVER_assert(END, "vploop end of list " w);
#define VP_LOOP_HAVOC(k) { __CPROVER_assume((k) <= N); look(k); long f = FK; E[0] = KK; \
    if (W < N && W != (k)) { __CPROVER_assume(VP_IMP(W < (k), !stops(W))); EW = at(k, W); } \
    if (f >= 0) __CPROVER_assume(pressed(KEY((size_t)f), C) && listed((size_t)f) && !stops((size_t)f)); }
/* at the end of the list the code goes on with the last pressed key */
#define VP_LOOP_AFTER(k) if ((k) == N) { __CPROVER_assert(END, "vploop end of list"); if (FK >= 0) { VPVIEW = FK; if (VPVIEW == (long)W) E[0] = EW; else E[0] = at(k, (size_t)VPVIEW); } }
#define VP_LOOP_ASSUME(k) if ((k) < N) __CPROVER_assume(LASTP((k) + 1) == (pressed(KK, C) ? (long)(k) : FK));
#ifdef VP_NATIVE
static void list_of(size_t n) { KS = calloc(n + 1, sizeof(key_t_)); for (size_t j = 0; j < n; j++) { ASSUME(listed(j)); KS[j] = KEY(j); } }
#else
static void list_of(size_t n) { __CPROVER_assume(LASTP(0) == -1); { key_t_ kw; KW = EW = kw; } look(0); VPBASE = 0; E[0] = KK; if (W < n) __CPROVER_assume(listed(W)); }
#endif
'''
U = Unit('keypad_list', src=['gel/keypad/keypad.c'], before='#include "keypad/keypad.h"\n' + ROUTINE)
U.contract('keypad_update_t keypad_routine(keypad_key_t *keys, unsigned long click, unsigned long longclick, unsigned long press_period, unsigned long timestamp, unsigned long bitvalue)',
    requires=['keys == LIST', 'click == C.click && longclick == C.longclick && press_period == C.period && timestamp == C.now && bitvalue == C.bits', 'CALL_OK(C)'],
    assigns='OBJ(E), EW, CK, VPBASE, KK, KF, FK', ensures={
        'the_search_stops_at_the_first_key_let_go': 'VP_IMP(W < CK && W < N, !stops(W)) && VP_IMP(CK < N, stops(CK)) && CK <= N',
        'event_of_the_key_let_go_or_of_the_last_one_pressed': r'\result.event == (found() < 0 ? KEY_NOTHING : want().event)',
        'with_the_code_of_that_key': r'VP_IMP(\result.event != KEY_NOTHING, found() >= 0 && \result.code == KEY((size_t)found()).code)',
        'only_that_key_moves_on': 'VP_IMP(W < N, same_key(EL_W, (long)W == found() ? want().key : at(CK, W))) && END'})
SET = r'''
    IN(call_t, c); IN(size_t, n); IN(size_t, w);
#ifdef VP_RANDOM
    n = vp_rnd() % 3 ? vp_rnd() % 12 : 120 + vp_rnd() % 160; w = vp_rnd() % (n + 1); c.click %= 7; c.period %= 5; c.longclick = c.click + c.longclick % 5; c.bits = vp_rnd() % 3 ? 1000 + vp_rnd() % 8 : vp_rnd() % 8;
    unsigned rare = vp_rnd() % 4;
    for (size_t j = 0; j < n; j++) { key_t_ *k = &K0[j]; vp_fill(k, sizeof *k); int e = rare && vp_rnd() % 40 ? 2 * 3 : vp_rnd() % 7; k->_state.lastevent = e == 2 || e == 5 ? 0 : e; k->_state.value %= 2;
        k->_state.oldvalue = k->_state.lastevent == KEY_PRESS ? 1 : k->_state.lastevent == KEY_NOTHING || k->_state.lastevent == KEY_RELEASE ? 0 : vp_rnd() % 2;
        k->_state.ignore = k->_state.lastevent == KEY_NOTHING ? vp_rnd() % 2 : 0; k->_state.time_state = c.now - vp_rnd() % 12; k->_state.time_period = c.now - vp_rnd() % 12; k->bitvalue = vp_rnd() % 7 + (vp_rnd() % 60 ? 1 : 1000); k->code = (int)j; }
#endif
    ASSUME(n <= VP_MAXLIST && CALL_OK(c)); N = n; W = w; C = c; list_of(n);
'''
ENS = list(U.contracts['keypad_routine'].ensures)
RUN = SET + 'CALL(keypad_routine)(LIST, c.click, c.longclick, c.period, c.now, c.bits);'
L = dict(hint=['@v i == (__typeof__(i))LASTP(@k)', 'found == entry + k'], window=('E', 'keypad_key_t'), generic=[' + k'], int=['@v == (__typeof__(@v))LASTP(@k)'], type={'keypad_update_t': ['@v.event == KEY_NOTHING', '@v.code == (LASTP(@k) >= 0 ? KEY((size_t)LASTP(@k)).code : 0)']})
U.proof('keypad_routine', RUN, ['C10'], name='routine/any_length', unwind=4, cost=9, loops=L)
RESET = SPEC + r'''
static key_t_ at(size_t k, size_t j) { key_t_ r = KEY(j); if (j < k) { key_t_ z = { 0 }; z.bitvalue = r.bitvalue; z.code = r.code; z._state.ignore = 1; return z; } return r; }
#define VP_LOOP_MUST(k, w) __CPROVER_assert((k) <= N, "vploop inside the list " w); if (W < N) __CPROVER_assert(same_key(EL_W, at(k, W)), "vploop keys passed are reset, the others untouched " w); __CPROVER_assert(END, "vploop end of list " w);
#define VP_LOOP_HAVOC(k) { __CPROVER_assume((k) <= N); look(k); E[0] = KK; if (W < N && W != (k)) EW = at(k, W); }
#ifdef VP_NATIVE
static void list_of(size_t n) { KS = calloc(n + 1, sizeof(key_t_)); for (size_t j = 0; j < n; j++) { ASSUME(listed(j)); KS[j] = KEY(j); } }
#else
static void list_of(size_t n) { { key_t_ kw; KW = EW = kw; } look(0); VPBASE = 0; E[0] = KK; if (W < n) __CPROVER_assume(listed(W)); }
#endif
'''
V = Unit('keypad_reset', src=['gel/keypad/keypad.c'], before='#include "keypad/keypad.h"\n' + RESET)
V.contract('void keypad_reset_keys(keypad_key_t *keys)', requires=['keys == LIST'], assigns='OBJ(E), EW, CK, VPBASE, KK, KF, FK', ensures={
    'every_key_forgets_its_press_and_keeps_its_description': 'VP_IMP(W < N, same_key(EL_W, at(N, W)))', 'end_of_the_list_kept': 'END'})
V.proof('keypad_reset_keys', SET + 'CALL(keypad_reset_keys)(LIST);', ['C10'], name='reset/any_length', unwind=4, cost=6, loops=dict(window=('E', 'keypad_key_t')))
