from vp.core import Unit
from vp import cast

TYPES = [('uint8_t', 'u8', 'PARAMETER_TYPE_UINT8'), ('int8_t', 'i8', 'PARAMETER_TYPE_INT8'),
         ('uint16_t', 'u16', 'PARAMETER_TYPE_UINT16'), ('int16_t', 'i16', 'PARAMETER_TYPE_INT16'),
         ('uint32_t', 'u32', 'PARAMETER_TYPE_UINT32'), ('int32_t', 'i32', 'PARAMETER_TYPE_INT32'),
         ('uint64_t', 'u64', 'PARAMETER_TYPE_UINT64'), ('int64_t', 'i64', 'PARAMETER_TYPE_INT64'),
         ('float', 'f', 'PARAMETER_TYPE_FLOAT'), ('double', 'd', 'PARAMETER_TYPE_DOUBLE')]
INTS = [t for t in TYPES if t[1] not in 'fd']

def each(fmt, types=TYPES):
    return '\n'.join(fmt.replace('@T', t).replace('@f', f).replace('@E', e) for t, f, e in types)

SPEC = r'''
/* a parameter value of any type, as raw bits: the low size_of(type) bytes */
typedef parameter_handle_t H;
#define OK_TYPE(t) ((int)(t) >= 0 && (int)(t) <= 9)
static size_t size_of(int t) { return t <= 1 ? 1 : t <= 3 ? 2 : t <= 5 || t == 8 ? 4 : 8; }
#define raw(t, p) ((t) <= 1 ? *(uint8_t *)(p) : (t) <= 3 ? *(uint16_t *)(p) : (t) <= 5 || (t) == 8 ? *(uint32_t *)(p) : *(uint64_t *)(p))
static uint64_t mask(int t) { return t <= 1 ? 0xff : t <= 3 ? 0xffff : t <= 5 || t == 8 ? 0xffffffff : ~(uint64_t)0; }
static parameter_type_union_t U_of(uint64_t r) { union { uint64_t r; parameter_type_union_t u; } x; x.r = r; return x.u; }
static uint64_t raw_of(parameter_type_union_t u) { union { uint64_t r; parameter_type_union_t u; } x; x.u = u; return x.r; }
/* limits in force: the dynamic one if there is one */
#define LO(h) ((h).pmin != NULL ? raw((h).type, (h).pmin) : raw_of((h).min) & mask((h).type))
#define HI(h) ((h).pmax != NULL ? raw((h).type, (h).pmax) : raw_of((h).max) & mask((h).type))
static int less(int t, uint64_t a, uint64_t b) { /* a < b as values of type t */
    parameter_type_union_t x = U_of(a), y = U_of(b);
    switch (t) {
''' + each('        case @E: return x.@f < y.@f;') + r'''
    }
    return 0;
}
static int within(H *h, uint64_t v, uint64_t lo, uint64_t hi) { return !less(h->type, v, lo) && !less(h->type, hi, v); }
static uint64_t moved(H *h, uint64_t v, int mod) { /* v + step * mod in the machine arithmetic of the type */
    parameter_type_union_t x = U_of(v), y = x;
    switch (h->type) {
''' + each('        case @E: y.@f = (@T)(x.@f + h->step.@f * mod); break;', INTS) + each('        case @E: y.@f = (@T)(x.@f + vp_mul@f(h->step.@f, mod)); break;', TYPES[8:]) + r'''
    }
    return raw_of(y) & mask(h->type);
}
static uint64_t after_operator(H *h, uint64_t v, int mod, uint64_t lo, uint64_t hi) {
    uint64_t w = moved(h, v, mod);
    if (mod != 0 && !within(h, w, lo, hi)) return mod > 0 ? lo : hi;
    return w;
}
static int same_value(int t, uint64_t a, uint64_t b) { /* equal bits, or both not-a-number */
    parameter_type_union_t x = U_of(a), y = U_of(b);
    if (t == PARAMETER_TYPE_FLOAT && x.f != x.f && y.f != y.f) return 1;
    if (t == PARAMETER_TYPE_DOUBLE && x.d != x.d && y.d != y.d) return 1;
    return a == b;
}
static uint64_t V0, L0, H0; /* logical variables: value and limits before the call */
#define AT_START(h) (V0 == raw((h)->type, (h)->pointer) && L0 == LO(*(h)) && H0 == HI(*(h)))
#define VALID(h) (VP_RW(h, sizeof(H)) && OK_TYPE((h)->type) && VP_RW((h)->pointer, size_of((h)->type)) \
    && ((h)->pmin == NULL || VP_R((h)->pmin, size_of((h)->type))) && ((h)->pmax == NULL || VP_R((h)->pmax, size_of((h)->type))))
#define VAL(h) raw((h)->type, (h)->pointer)
static void *cell(int t, uint64_t r) { void *p = malloc(size_of(t)); memcpy(p, &r, size_of(t)); return p; }
typedef struct { uint8_t dynmin, dynmax, type; uint64_t val, lo, hi, min, max, def, step; unsigned al; } in_t;
static H make(in_t i) {
    H h; memset(&h, 0, sizeof h);
    h.type = (parameter_type_t)i.type; h.pointer = cell(i.type, i.val);
    if (i.dynmin) h.pmin = cell(i.type, i.lo);
    if (i.dynmax) h.pmax = cell(i.type, i.hi);
    h.min = U_of(i.min); h.max = U_of(i.max); h.defaultv = U_of(i.def); h.step = U_of(i.step); h.access_level = i.al;
    return h;
}
#define START(h) V0 = VAL(&h); L0 = LO(h); H0 = HI(h)
'''
U = Unit('parameter', src=['gel/parameter/parameter.c'], spec=SPEC, before='#include "parameter/parameter.h"')

# ---------------------------------------------------------------- C13: ranges, operator, defaults
U.contract('int parameter_operator(parameter_handle_t *handle, int mod)', requires=['VALID(handle) && AT_START(handle)'], assigns='OBJ(handle->pointer)', ensures={
    'succeeds': r'\result == 0',
    'stays_within_the_limits': r'VP_IMP(mod != 0 && !less(handle->type, H0, L0), within(handle, VAL(handle), L0, H0))',
    'moves_by_mod_steps_or_wraps_to_the_other_end': r'same_value(handle->type, VAL(handle), after_operator(handle, V0, mod, L0, H0))'})
U.contract('size_t parameter_get_total_values(parameter_handle_t *handle)', requires=['VALID(handle) && AT_START(handle) && !less(handle->type, H0, L0)'], assigns='', ensures={
    'number_of_values_in_range': r'VP_IMP(handle->type < PARAMETER_TYPE_FLOAT, \result == count_of(handle->type, L0, H0))'})
U.spec += r'''
static size_t count_of(int t, uint64_t lo, uint64_t hi) {
    parameter_type_union_t x = U_of(lo), y = U_of(hi);
    switch (t) {
''' + each('        case @E: return (size_t)((size_t)y.@f - (size_t)x.@f) + 1;', INTS) + r'''
    }
    return 0;
}'''
P13, P14, P15 = ['C13'], ['C14'], ['C15']
ONE = 'IN(in_t, i); VP_SMALL(i.type, 9); ASSUME(%s); H h = make(i); START(h); '
for t, f, e in TYPES:
    h = 'IN(in_t, i); i.type = %s; H h = make(i); START(h); ' % e
    if f in 'fd':
        for m in (1, -1, 0, 7, -100):
            U.proof('parameter_operator', h + 'CALL(parameter_operator)(&h, %d);' % m, P13, name='parameter_operator/%s/%d' % (f, m), bound='floating point: mod is one of 1, -1, 0, 7, -100',
                    tier='thorough' if f == 'd' and m not in (0, 1) else 'quick', timeout=250)
    U.proof('parameter_operator', h + 'IN(int, mod); CALL(parameter_operator)(&h, mod);', P13, name='parameter_operator/' + f, tier='thorough' if f in 'fd' else 'quick',
            timeout=800 if f in 'fd' else 330 if f == 'i64' else 200, cost=9, flags=['--refine-arithmetic'] if f == 'i64' else ())
UF = Unit('parameter_float', src=['gel/parameter/parameter.c'], spec=SPEC)
UF.contracts['parameter_operator'] = U.contracts['parameter_operator']
for t, f, e in TYPES[8:]:
    UF.proof('parameter_operator', 'IN(in_t, i); i.type = %s; H h = make(i); START(h); IN(int, mod); CALL(parameter_operator)(&h, mod);' % e, P13, name='parameter_operator/%s/any_step_count' % f,
        transform=cast.float_products('gel/parameter/parameter.c'), defs=['VP_MUL_ABSTRACT'], loops={}, note='the product of step and step count is some function of the two')
U.proof('parameter_get_total_values', ONE % 'i.type <= 7' + 'CALL(parameter_get_total_values)(&h);', P13, name='parameter_get_total_values/integers')
U.lemma('operator_without_handle', 'IN(int, mod); ASSERT("refused", parameter_operator(NULL, mod) == -1 && parameter_get_total_values(NULL) == 0);', P13, plain=True)

# lists.  A runtime callback may update its own handle (here: access level, or the dynamic maximum) before it is looked at.
LIST = r'''
#define NMAX VP_IF_BOUNDED(VP_BOUNDED, 3)
static H L[4]; static int RUNS[4]; static unsigned NEWAL[4];
static void runtime(H *h, void *arg) { unsigned k = (unsigned)(h - L); ASSERT("runtime callback gets its own handle and argument", k < 4 && arg == (void *)&NEWAL[k]); RUNS[k]++; h->access_level = NEWAL[k]; }
typedef struct { unsigned al[4], newal[4]; uint8_t rt[4]; } acc_t;
static void access_list(acc_t a) { for (int k = 0; k < 4; k++) { memset(&L[k], 0, sizeof(H)); RUNS[k] = 0; L[k].access_level = a.al[k]; NEWAL[k] = a.newal[k]; L[k].arg = &NEWAL[k]; if (a.rt[k] & 1) L[k].runtime = runtime; } }
static int accessible(acc_t a, int k, unsigned al) { unsigned l = (a.rt[k] & 1) ? a.newal[k] : a.al[k]; return l == 0 || (l & al) != 0; }
static int rank_of(acc_t a, int k, unsigned al) { int n = 0; for (int j = 0; j < 4; j++) if (j < k && accessible(a, j, al)) n++; return n; }
'''
U.spec += LIST
k4 = dict(plain=True, unwind=6, bound='lists of at most 4 parameters')
A = 'IN(acc_t, a); IN(size_t, len); IN(unsigned, al); VP_SMALL(len, 4); ASSUME(len <= 4); access_list(a); '
U.lemma('get_handle_is_the_num_th_accessible', A + r'''
    IN(size_t, num); VP_SMALL(num, 4); ASSUME(num < len);
    H *r = parameter_get_handle(L, len, num, al);
    size_t at = 4; for (size_t k = 0; k < 4; k++) if (k < len && accessible(a, k, al) && rank_of(a, k, al) == (int)num) at = k;
    ASSERT("the num-th accessible parameter, or nothing", r == (at < 4 ? &L[at] : NULL));
    for (size_t k = 0; k < 4; k++) ASSERT("runtime callbacks run once, before the parameter is looked at", RUNS[k] == (k < len && k <= at && (a.rt[k] & 1) ? 1 : 0));
''', P14, **k4)
U.lemma('get_count_counts_the_accessible', A + r'''
    size_t n = parameter_get_count(L, len, al);
    ASSERT("number of accessible parameters", n == (size_t)rank_of(a, len, al));
    for (size_t k = 0; k < 4; k++) ASSERT("runtime callbacks run once", RUNS[k] == (k < len && (a.rt[k] & 1) ? 1 : 0));
''', P14, **k4)
U.lemma('count_and_handles_agree', A + r'''
    IN(size_t, num); VP_SMALL(num, 4); ASSUME(num < len);
    size_t n = parameter_get_count(L, len, al); H *r = parameter_get_handle(L, len, num, al);
    ASSERT("there is a num-th parameter exactly below the count", (r != NULL) == (num < n));
''', P14, **k4)
VL = r'''
    IN(in_t, i0); IN(in_t, i1); IN(in_t, i2); IN(size_t, len); VP_SMALL(len, 3); ASSUME(len <= 3);
    VP_SMALL(i0.type, 9); VP_SMALL(i1.type, 9); VP_SMALL(i2.type, 9);
    ASSUME(i0.type <= 9 && i1.type <= 9 && i2.type <= 9);
    H l[3]; l[0] = make(i0); l[1] = make(i1); l[2] = make(i2); uint64_t v[3];
    for (int k = 0; k < 3; k++) v[k] = VAL(&l[k]);
'''
k3 = dict(plain=True, unwind=6, bound='lists of at most 3 parameters')
U.lemma('check_ranges_resets_exactly_the_values_out_of_range', VL + r'''
    int want = 0; for (int k = 0; k < 3; k++) if (k < (int)len && !within(&l[k], v[k], LO(l[k]), HI(l[k]))) want++;
    int n = parameter_check_ranges(l, len);
    ASSERT("returns how many were out of range", n == want);
    for (int k = 0; k < 3; k++) {
        int out = k < (int)len && !within(&l[k], v[k], LO(l[k]), HI(l[k]));
        ASSERT("those get their default, the others keep their value", VAL(&l[k]) == (out ? raw_of(l[k].defaultv) & mask(l[k].type) : v[k]));
    }''', P13, **k3)
U.lemma('reset_to_defaults_resets_all', VL + r'''
    parameter_reset_to_defaults(l, len);
    for (int k = 0; k < 3; k++) ASSERT("every parameter of the list gets its default", VAL(&l[k]) == (k < (int)len ? raw_of(l[k].defaultv) & mask(l[k].type) : v[k]));
    ''', P13, **k3)

# ---------------------------------------------------------------- C15: conversions, copies, constructors
U.spec += r'''
static int64_t number(int t, uint64_t v) { parameter_type_union_t x = U_of(v); switch (t) {
''' + each('    case @E: return (int64_t)x.@f;', INTS) + r'''
    } return 0; }'''
U.contract('long parameter_to_long(parameter_handle_t *handle)', requires=['VALID(handle) && AT_START(handle)'], assigns='', ensures={
    'the_value': r'\result == (handle->type <= 7 ? (long)number(handle->type, V0) : 0)'})
U.contract('size_t parameter_to_index(parameter_handle_t *handle)', requires=['VALID(handle) && AT_START(handle)'], assigns='', ensures={
    'the_value': r'VP_IMP(handle->type == PARAMETER_TYPE_UINT64 || number(handle->type, V0) >= 0, \result == (handle->type <= 7 ? (size_t)number(handle->type, V0) : 0))',
    'zero_only_for_zero': r'VP_IMP(handle->type <= 7, (\result == 0) == (V0 == 0))'})
U.contract('int parameter_to_bool(parameter_handle_t *handle)', requires=['VALID(handle) && AT_START(handle)'], assigns='', ensures={
    'value_is_not_zero': r'(\result != 0) == (handle->type <= 7 && V0 != 0)'})
U.contract('GEL_PARAMETER_USER_DATA parameter_get_user_data(parameter_handle_t *handle)', requires=['VP_R(handle, sizeof(H))'], assigns='', ensures={'the_user_data': r'\result == handle->data'})
U.contract('int parameter_copy_value(parameter_handle_t *destination, parameter_handle_t *source)',
    requires=['VALID(destination) && VALID(source) && AT_START(destination) && destination->pointer != source->pointer'], assigns='OBJ(destination->pointer)', ensures={
        'only_between_equal_types': r'\result == (destination->type == source->type ? 0 : -1)',
        'value_copied': r'VAL(destination) == (\result == 0 ? VAL(source) : V0)'})
ANY = ONE % 'i.type <= 9'
for f in ('parameter_to_long', 'parameter_to_index'):
    U.proof(f, ANY + 'CALL(%s)(&h);' % f, P15)
U.proof('parameter_to_bool', ANY + 'CALL(parameter_to_bool)(&h);', P15, replace=['parameter_to_index'])
U.proof('parameter_get_user_data', ANY + 'IN(uintptr_t, ud); h.data = (GEL_PARAMETER_USER_DATA)ud; CALL(parameter_get_user_data)(&h);', P15)
U.proof('parameter_copy_value', ANY + 'IN(in_t, j); VP_SMALL(j.type, 9); ASSUME(j.type <= 9); H g = make(j); CALL(parameter_copy_value)(&h, &g);', P15)
U.lemma('conversions_without_handle', ANY + r'''
    ASSERT("nothing to convert", parameter_to_long(NULL) == 0 && parameter_to_index(NULL) == 0 && !parameter_to_bool(NULL));
    ASSERT("nothing to copy", parameter_copy_value(NULL, &h) == -1 && parameter_copy_value(&h, NULL) == -1 && VAL(&h) == V0);''', P15, plain=True)
for f, call in (('parameter_clone', 'H g; memset(&g, 0, sizeof g); parameter_clone(&g, &h, (void *)b);'), ('parameter_clone_with_buffer', 'H g = parameter_clone_with_buffer(&h, b);')):
    U.lemma(f + '_has_own_memory_same_value', ANY + r'''
    uint8_t *b = malloc(size_of(i.type)); H before = h; %s
    ASSERT("own memory", g.pointer == (void *)b);
    ASSERT("same value", VAL(&g) == V0 && VAL(&h) == V0 && h.pointer == before.pointer);
    ASSERT("same description", g.type == h.type && g.pmin == h.pmin && g.pmax == h.pmax && raw_of(g.min) == raw_of(h.min) && raw_of(g.max) == raw_of(h.max)
        && raw_of(g.defaultv) == raw_of(h.defaultv) && raw_of(g.step) == raw_of(h.step) && g.access_level == h.access_level && g.data == h.data && g.runtime == h.runtime && g.arg == h.arg);
    ''' % call, P15, plain=True)
for t, f, e in TYPES:
    U.lemma('constructors/' + f, r'''
    IN(@T, mn); IN(@T, mx); IN(@T, de); IN(@T, st); IN(unsigned, al); @T v, lo, hi; int ud;
    ASSUME(mn == mn && mx == mx && de == de && st == st);
    H p = PARAMETER(&v, mn, mx, de, &ud, al);
    ASSERT("PARAMETER", p.type == @E && p.pointer == &v && p.pmin == NULL && p.pmax == NULL && p.min.@f == mn && p.max.@f == mx && p.defaultv.@f == de && p.step.@f == 1 && p.access_level == al && p.data == &ud && p.runtime == NULL);
    p = PARAMETER_STEP(&v, mn, mx, de, st, &ud, al);
    ASSERT("PARAMETER_STEP", p.type == @E && p.pointer == &v && p.min.@f == mn && p.max.@f == mx && p.defaultv.@f == de && p.step.@f == st && p.access_level == al);
    p = PARAMETER_DLIMITS(&v, &lo, &hi, mn, mx, de, &ud, al);
    ASSERT("PARAMETER_DLIMITS", p.type == @E && p.pmin == &lo && p.pmax == &hi && p.min.@f == mn && p.max.@f == mx && p.defaultv.@f == de && p.step.@f == 1);
    p = PARAMETER_C99(@E, &v, &lo, &hi, mn, mx, de, st, al, &ud, NULL, NULL);
    ASSERT("PARAMETER_C99", p.type == @E && p.pmin == &lo && p.pmax == &hi && p.min.@f == mn && p.max.@f == mx && p.defaultv.@f == de && p.step.@f == st && p.data == &ud && p.access_level == al);
    '''.replace('@T', t).replace('@f', f).replace('@E', e), P15, plain=True)
U.assume = ['parameter.h configured with GEL_PARAMETER_MAX_SIZE 8 (the default); machine arithmetic of the parameter type (two\'s complement wrap-around) is part of the specification of parameter_operator',
            'runtime callbacks only update their own handle']
