"""C13/C14 for lists of any length: loop invariants (vp/loops.py) over the real loops of parameter.c.
The list is described by functions of the index (level, callback, value...); the loop is followed for one arbitrary iteration and
one arbitrary watched element W."""
import parameter as P_
from vp.core import Unit

ACC = P_.SPEC + r'''
static H *PS; static size_t N, W, NUM, CK, RUNS, OTHER; static unsigned ALS; static int IN_LIST;
#ifdef VP_NATIVE
#define CAPACITY 1200
#define VP_MAXLIST 1100
static unsigned AL0[CAPACITY], AL1[CAPACITY]; static uint8_t RT0[CAPACITY];
#define AL(j) AL0[j]
#define NEWAL(j) AL1[j]
#define RT(j) RT0[j]
static size_t CNT(size_t n) { size_t r = 0; for (size_t j = 0; j < n; j++) { unsigned l = RT(j) ? NEWAL(j) : AL(j); r += l == 0 || (l & ALS); } return r; }
static size_t expected(void) { for (size_t j = 0; j < N; j++) { unsigned l = RT(j) ? NEWAL(j) : AL(j); if ((l == 0 || (l & ALS)) && CNT(j) == NUM) return j; } return N; }
#define CK expected()
#define AT(h) ((size_t)((h) - PS))
#define CHANGED(h, j) { H x = *h; vp_fill_other(&x, j); x.access_level = NEWAL(j); *h = x; }
static void vp_fill_other(H *x, size_t j) { if (j & 1) { x->runtime = NULL; x->pointer = x; x->type = (parameter_type_t)(j % 10); x->data = 0; } }
#else
#define VP_MAXLIST ((size_t)1 << 40)
unsigned __CPROVER_uninterpreted_AL(size_t j); unsigned __CPROVER_uninterpreted_NEWAL(size_t j); unsigned char __CPROVER_uninterpreted_RT(size_t j); size_t __CPROVER_uninterpreted_CNT(size_t j);
#define AL(j) __CPROVER_uninterpreted_AL(j)
#define NEWAL(j) __CPROVER_uninterpreted_NEWAL(j)
#define RT(j) (__CPROVER_uninterpreted_RT(j) != 0)
#define CNT(j) __CPROVER_uninterpreted_CNT(j) /* how many of the first j parameters are accessible */
#define AT(h) CK
#define CHANGED(h, j) { H x; x.access_level = NEWAL(j); *h = x; } /* anything of its own handle may change */
#endif
#define ARG(j) ((void *)((uint8_t *)PS + (j)))
#define LEVEL(j) (RT(j) ? NEWAL(j) : AL(j)) /* in force once the runtime callback ran */
#define ACCESSIBLE(j) (LEVEL(j) == 0 || (LEVEL(j) & ALS) != 0)
static void runtime(H *h, void *arg) { size_t j = AT(h); ASSERT("runtime callback gets its own handle and argument", j < N && h == &PS[j] && arg == ARG(j)); if (j == W) RUNS++; CHANGED(h, j) }
/* element j before the loop came to it / after */
#define FRESH(j) (PS[j].access_level == AL(j) && PS[j].runtime == (RT(j) ? runtime : NULL) && PS[j].arg == ARG(j))
#define VP_LOOP_MUST(k, w) __CPROVER_assert((k) <= N, "vploop no more iterations than elements " w); __CPROVER_assert(W >= N || (W >= (k) ? FRESH(W) && RUNS == 0 : RUNS == RT(W)), "vploop elements not reached yet are untouched, the others had their callback once " w);
#define VP_LOOP_HAVOC(k) __CPROVER_assume((k) <= N); __CPROVER_havoc_object(PS); CK = (k); RUNS = W < (k) && RT(W);
#define VP_LOOP_ASSUME(k) if ((k) < N) { __CPROVER_assume(FRESH(k)); __CPROVER_assume(CNT((k) + 1) == CNT(k) + ACCESSIBLE(k)); } if (W < N && W >= (k)) __CPROVER_assume(FRESH(W));
#ifdef VP_NATIVE
static void list_of(size_t n) { PS = calloc(n + 1, sizeof(H)); for (size_t j = 0; j < n; j++) { PS[j].access_level = AL(j); PS[j].runtime = RT(j) ? runtime : NULL; PS[j].arg = ARG(j); } }
#else
static void list_of(size_t n) { PS = malloc(sizeof(H) * (n + 1)); if (W < n) __CPROVER_assume(FRESH(W)); __CPROVER_assume(CNT(0) == 0); }
#endif
'''.replace('if ((k) < N) { __CPROVER_assume(FRESH(k));', 'if ((k) < N) { PS[k].access_level = AL(k); PS[k].runtime = RT(k) ? runtime : NULL; PS[k].arg = ARG(k);')
ACC = ACC.replace('if (W < N && W >= (k)) __CPROVER_assume(FRESH(W));', 'if (W < N && W > (k)) __CPROVER_assume(FRESH(W));')
U = Unit('parameter_access', src=['gel/parameter/parameter.c'], spec='', before='#include "parameter/parameter.h"\n' + ACC)
GH = 'OBJ(PS), RUNS, CK'
PRE = ['ps == PS && length == N && al == ALS && RUNS == 0', 'VP_RW(PS, N * sizeof(H))']
U.contract('size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int al)', requires=PRE, assigns=GH, ensures={
    'number_of_accessible_parameters': r'\result == CNT(N)', 'runtime_callbacks_run_once': 'VP_IMP(W < N, RUNS == RT(W))'})
U.contract('parameter_handle_t *parameter_get_handle(parameter_handle_t *ps, size_t length, size_t num, unsigned int al)', requires=PRE + ['num < length && num == NUM'], assigns=GH, ensures={
    'the_num_th_accessible_parameter': r'VP_IMP(\result != NULL, CK < N && \result == &PS[CK] && ACCESSIBLE(CK) && CNT(CK) == num && CNT(CK + 1) == num + 1)',
    'nothing_only_if_there_are_not_that_many': r'VP_IMP(\result == NULL, CNT(N) <= num)',
    'runtime_callbacks_run_once_before_the_look': r'VP_IMP(W < N, RUNS == (RT(W) && (\result == NULL || W <= CK)))'})
SET = r'''
    IN(size_t, n); IN(unsigned, al); IN(size_t, w); IN(size_t, num);
#ifdef VP_RANDOM
    n = vp_rnd() % 3 ? vp_rnd() % 40 : 250 + vp_rnd() % 12; w = vp_rnd() % (n + 1); num = vp_rnd() % (n + 1);
    for (size_t j = 0; j < n; j++) { AL0[j] = vp_rnd() % 4; AL1[j] = vp_rnd() % 4; RT0[j] = vp_rnd() % 2; } al = vp_rnd() % 3 ? vp_rnd() % 4 : ~0u;
#endif
    ASSUME(n <= VP_MAXLIST); N = n; W = w; NUM = num; ALS = al; RUNS = 0; list_of(n);
'''
T = ['@v == (__typeof__(@v))CNT(@k)', '@v == (__typeof__(@v))(@e - CNT(@k))']
lk = dict(unwind=4, cost=4)
U.proof('parameter_get_count', SET + 'CALL(parameter_get_count)(PS, n, al);', ['C14'], name='get_count/any_length', loops=dict(int=T), **lk)
U.proof('parameter_get_handle', SET + 'ASSUME(num < n); CALL(parameter_get_handle)(PS, n, num, al);', ['C14'], name='get_handle/any_length', loops=dict(int=T, inv=['CNT(@k) <= NUM']), **lk)
U.lemma('count_and_handles_agree/any_length', SET + r'''
    ASSUME(num < n);
    size_t c = CALL(parameter_get_count)(PS, n, al); RUNS = 0;
    H *r = CALL(parameter_get_handle)(PS, n, num, al);
#ifndef VP_NATIVE
    if (r != NULL) ASSUME(CNT(CK + 1) <= CNT(N)); /* CNT only grows: CNT(j + 1) = CNT(j) + (0 or 1) */
#endif
    ASSERT("there is a num-th parameter exactly below the count", (r != NULL) == (num < c));
''', ['C14'], replace=['parameter_get_count', 'parameter_get_handle'], replay=False)
U.lemma('with_access_to_everything_the_num_th_parameter', SET.replace('list_of(n);', 'list_of(n); ASSUME(al == ~0u);') + r'''
    IN(size_t, j); ASSUME(num < n);
    ASSERT("everything is accessible", ACCESSIBLE(j)); /* hence CNT(j) = j for every j, by induction: used for two instances below */
    H *r = CALL(parameter_get_handle)(PS, n, num, al);
#ifndef VP_NATIVE
    ASSUME(CNT(CK) == CK && CNT(N) == N);
#endif
    ASSERT("the num-th parameter", r == &PS[num]);
''', ['C13'], replace=['parameter_get_handle'], replay=False)
U.assume = ['a runtime callback changes only its own handle (any field of it)', 'lists of at most 2^40 parameters']

# ---------------------------------------------------------------- C13: check_ranges, reset_to_defaults
RNG = P_.SPEC + r'''
static size_t N, W; static uint64_t WCELL, WLO, WHI; /* cells of the watched parameter */
#ifdef VP_NATIVE
static H *PS;
#define VP_MAXLIST 600
static in_t EL[VP_MAXLIST];
static int BAD(size_t n);
#define D(field, j) EL[j].field
#else
/* The loop reaches the parameters through parameter_get_handle only (PS is no object: any other access fails), so two places are
 * enough: E[1] is the watched parameter, E[0] the one of the current iteration CK when that is another one */
static H *PS; static H E[2]; static size_t CK; static uint64_t SCELL, SLO, SHI;
#define ELEMENT(j) (&E[(j) == W])
#define VP_MAXLIST ((size_t)INT_MAX)
int __CPROVER_uninterpreted_BAD(size_t j);
#define BAD(j) __CPROVER_uninterpreted_BAD(j) /* how many of the first j parameters are out of range */
#define FN(T, f) T __CPROVER_uninterpreted_##f(size_t j);
FN(unsigned char, type) FN(unsigned char, dynmin) FN(unsigned char, dynmax) FN(uint64_t, val) FN(uint64_t, lo) FN(uint64_t, hi) FN(uint64_t, min) FN(uint64_t, max) FN(uint64_t, def) FN(unsigned, al)
#define D(field, j) __CPROVER_uninterpreted_##field(j)
/* parameter j: its description (never changes) and its cells */
static void element(size_t j, H *e, uint64_t *cell, uint64_t *lo, uint64_t *hi) {
    __CPROVER_assume(D(type, j) <= 9);
    e->type = (parameter_type_t)D(type, j); e->pointer = cell; e->runtime = NULL; e->access_level = D(al, j);
    e->pmin = D(dynmin, j) ? (void *)lo : NULL; e->pmax = D(dynmax, j) ? (void *)hi : NULL;
    e->min = U_of(D(min, j)); e->max = U_of(D(max, j)); e->defaultv = U_of(D(def, j));
    *lo = D(lo, j); *hi = D(hi, j);
}
static int described(size_t j, H *e, uint64_t *cell, uint64_t *lo_, uint64_t *hi_) {
    return e->type == (parameter_type_t)D(type, j) && e->pointer == (void *)(cell) && e->runtime == NULL && e->access_level == D(al, j)
        && e->pmin == (D(dynmin, j) ? (void *)(lo_) : NULL) && e->pmax == (D(dynmax, j) ? (void *)(hi_) : NULL)
        && raw_of(e->min) == D(min, j) && raw_of(e->max) == D(max, j) && raw_of(e->defaultv) == D(def, j) && *(lo_) == D(lo, j) && *(hi_) == D(hi, j);
}
#endif
#define LO_(j) ((D(dynmin, j) ? D(lo, j) : D(min, j)) & mask(D(type, j)))
#define HI_(j) ((D(dynmax, j) ? D(hi, j) : D(max, j)) & mask(D(type, j)))
static int out_of_range(size_t j) { H h; h.type = (parameter_type_t)D(type, j); return !within(&h, D(val, j) & mask(h.type), LO_(j), HI_(j)); }
static uint64_t low(size_t j, uint64_t v) { return v & mask(D(type, j)); }
static uint64_t after(size_t j) { return RESETS(j) ? low(j, D(def, j)) : low(j, D(val, j)); }
#ifdef VP_NATIVE
static int BAD(size_t n) { int r = 0; for (size_t j = 0; j < n; j++) r += out_of_range(j); return r; }
static void list_of(size_t n) { PS = calloc(n + 1, sizeof(H)); for (size_t j = 0; j < n; j++) PS[j] = make(EL[j]); }
#define NOW(j) low(j, VAL(&PS[j]))
#else
static void list_of(size_t n) { if (W < n) { element(W, &E[1], &WCELL, &WLO, &WHI); WCELL = D(val, W); } __CPROVER_assume(BAD(0) == 0); }
#define NOW(j) low(j, WCELL)
#endif
#define VP_LOOP_MUST(k, w) __CPROVER_assert((k) <= N, "vploop no more iterations than elements " w); if (W < N) { __CPROVER_assert(described(W, &E[1], &WCELL, &WLO, &WHI), "vploop the parameters themselves stay " w); __CPROVER_assert(NOW(W) == (W >= (k) ? low(W, D(val, W)) : after(W)), "vploop values not reached yet are untouched, the others done " w); }
#define VP_LOOP_HAVOC(k) { __CPROVER_assume((k) <= N); CK = (k); uint64_t nd; WCELL = nd; if (W < N) { element(W, &E[1], &WCELL, &WLO, &WHI); __CPROVER_assume(NOW(W) == (W >= (k) ? low(W, D(val, W)) : after(W))); } }
#define VP_LOOP_ASSUME(k) if ((k) < N) { if ((k) != W) { element(k, &E[0], &SCELL, &SLO, &SHI); SCELL = D(val, k); } __CPROVER_assume(BAD((k) + 1) == BAD(k) + out_of_range(k)); __CPROVER_assume(BAD(k) >= 0 && (size_t)BAD(k) <= (k)); }

'''
GET = dict(sig='parameter_handle_t *parameter_get_handle(parameter_handle_t *ps, size_t length, size_t num, unsigned int al)',
           requires=['ps == PS && length == N && num < length && al == ~0u && num == CK'], assigns='', ensures={'with_access_to_everything_the_num_th_parameter': r'__CPROVER_pointer_equals(\result, &E[num == W])'})
for fn, ret, resets in (('parameter_check_ranges', 'int', 'out_of_range(j)'), ('parameter_reset_to_defaults', 'void', '1')):
    R = Unit(fn, src=['gel/parameter/parameter.c'], spec='', before='#include "parameter/parameter.h"\n#define RESETS(j) %s\n' % resets + RNG)
    R.contract(**GET)
    e = {'values_of_the_list_done': 'VP_IMP(W < N, NOW(W) == after(W))'}
    if ret == 'int': e['returns_how_many_were_out_of_range'] = r'\result == BAD(N)'
    R.contract('%s %s(parameter_handle_t *ps, size_t length)' % (ret, fn), requires=['ps == PS && length == N', ], assigns='E, CK, WCELL, WLO, WHI, SCELL, SLO, SHI', ensures=e)
    SET = r'''
    IN(size_t, n); IN(size_t, w);
#ifdef VP_RANDOM
    n = vp_rnd() % 3 ? vp_rnd() % 20 : 250 + vp_rnd() % 12; w = vp_rnd() % (n + 1);
    vp_fill(EL, sizeof EL[0] * n); for (size_t j = 0; j < n; j++) { EL[j].type %= 10; EL[j].dynmin %= 2; EL[j].dynmax %= 2; }
#endif
    ASSUME(n <= VP_MAXLIST); N = n; W = w; list_of(n);
'''
    R.proof(fn, SET + 'CALL(%s)(PS, n);' % fn, ['C13'], name=fn + '/any_length', loops=dict(int=['@v == (__typeof__(@v))BAD(@k)']), unwind=4, cost=6, replace=['parameter_get_handle'])
    R.assume = ['the parameters of a list have memory of their own: no two share a value, and no limit of one is the value of another', 'no runtime callbacks while the ranges are checked or the defaults restored (an absent callback is one of the cases of C14)']
