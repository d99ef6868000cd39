from vp.core import Unit

U = Unit('debounce', src=['gel/debounce/debounce.c'], before='#include "debounce/debounce.h"', spec=r'''
#define NIN 32
#define BIT(x, i) (((x) >> (i)) & 1u)
/* one call on input bit i: the reading differs from the accepted level ... */
static int differs(debounce_filter_t f, unsigned level, size_t i) { return BIT(f.old_input, i) != (level > 0); }
/* ... and this was the last differing call that was still required */
static int accepted(debounce_filter_t f, unsigned level, size_t i, int debounce) {
    return differs(f, level, i) && (f.debounce_count[i] == 1 || (f.debounce_count[i] == 0 && debounce == 0));
}
static unsigned next_count(debounce_filter_t f, unsigned level, size_t i, int debounce) {
    return !differs(f, level, i) ? 0 : f.debounce_count[i] > 0 ? f.debounce_count[i] - 1 : (unsigned)debounce;
}
static unsigned accepted_mask(debounce_filter_t f, unsigned input, int debounce) {
    unsigned m = 0;
    for (size_t i = 0; i < NIN; i++) if (accepted(f, BIT(input, i), i, debounce)) m |= 1u << i;
    return m;
}
static int counts_ok(debounce_filter_t o, debounce_filter_t n, unsigned input, int debounce) {
    for (size_t i = 0; i < NIN; i++) if (n.debounce_count[i] != next_count(o, BIT(input, i), i, debounce)) return 0;
    return 1;
}
static int counts_zero(debounce_filter_t n) {
    for (size_t i = 0; i < NIN; i++) if (n.debounce_count[i] != 0) return 0;
    return 1;
}
static unsigned lowbit(int b, size_t i) { return b ? 1u << i : 0u; }
''')

U.contract('unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce)',
    requires=['VP_RW(filter, sizeof *filter)', 'i < NIN', 'debounce >= 0'],
    assigns='filter->buffered, filter->old_input, filter->debounce_count[i]',
    ensures={
        'reports_change_exactly_when_accepted': r'\result == lowbit(accepted(\old(*filter), input, i, debounce), i)',
        'value_changes_only_when_accepted': r'filter->buffered == (\result ? (\old(filter->buffered) & ~(1u << i)) | lowbit(input > 0, i) : \old(filter->buffered))',
        'level_follows_value': r'filter->old_input == (\result ? (\old(filter->old_input) & ~(1u << i)) | lowbit(input > 0, i) : \old(filter->old_input))',
        'consecutive_call_count': r'filter->debounce_count[i] == next_count(\old(*filter), input, i, debounce)',
    })
U.contract('unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce)',
    requires=['VP_RW(filter, sizeof *filter)', 'debounce >= 0'],
    assigns='*filter',
    ensures={
        'change_mask': r'\result == accepted_mask(\old(*filter), input, debounce)',
        'value': r'filter->buffered == ((\old(filter->buffered) & ~\result) | (input & \result))',
        'level': r'filter->old_input == ((\old(filter->old_input) & ~\result) | (input & \result))',
        'every_input_independent': r'counts_ok(\old(*filter), *filter, input, debounce)',
    })
U.contract('void debounce_filter_init(debounce_filter_t *filter)',
    requires=['VP_RW(filter, sizeof *filter)'], assigns='*filter',
    ensures={'all_clear': 'filter->buffered == 0 && filter->old_input == 0 && counts_zero(*filter)'})
U.contract('void debounce_filter_set(debounce_filter_t *filter, unsigned int set)',
    requires=['VP_RW(filter, sizeof *filter)'], assigns='*filter',
    ensures={'value_is_set': 'filter->buffered == set && filter->old_input == set',
             'pending_changes_forgotten': 'counts_zero(*filter)'})
U.contract('int debounce_read(debounce_filter_t *filter, size_t i)',
    requires=['VP_R(filter, sizeof *filter)'], assigns='',
    ensures={'reads_value': r'\result == (i < NIN ? (int)BIT(filter->buffered, i) : -1)'})
U.contract('unsigned int debounce_value(debounce_filter_t *filter)',
    requires=['VP_R(filter, sizeof *filter)'], assigns='',
    ensures={'reads_value': r'\result == filter->buffered'})

P = ['C08']
U.proof('debounce_filter_single', 'IN(debounce_filter_t, f); IN(unsigned, in); IN(size_t, i); IN(int, d); CALL(debounce_filter_single)(&f, in, i, d);', P)
U.proof('debounce_filter', 'IN(debounce_filter_t, f); IN(unsigned, in); IN(int, d); CALL(debounce_filter)(&f, in, d);', P, replace=['debounce_filter_single'], unwind=34)
U.proof('debounce_filter_init', 'IN(debounce_filter_t, f); CALL(debounce_filter_init)(&f);', P, unwind=34)
U.proof('debounce_filter_set', 'IN(debounce_filter_t, f); IN(unsigned, s); CALL(debounce_filter_set)(&f, s);', P, unwind=34)
U.proof('debounce_read', 'IN(debounce_filter_t, f); IN(size_t, i); CALL(debounce_read)(&f, i);', P)
U.proof('debounce_value', 'IN(debounce_filter_t, f); CALL(debounce_value)(&f);', P)
# induction step over histories: c = number of consecutive differing calls seen so far on input w, fixed debounce d
U.lemma('needs_d_plus_1_consecutive_differing_calls', r'''
    IN(debounce_filter_t, f); IN(unsigned, in); IN(int, d); IN(unsigned, c); IN(unsigned, w);
    ASSUME(d >= 0 && w < NIN && c <= (unsigned)d);
    ASSUME(f.debounce_count[w] == (c == 0 ? 0 : (unsigned)d + 1 - c));
    ASSUME(BIT(f.old_input, w) == BIT(f.buffered, w));
    unsigned before = BIT(f.buffered, w), diff = BIT(in, w) != before;
    unsigned r = CALL(debounce_filter)(&f, in, d);
    unsigned c2 = diff ? c + 1 : 0;
    ASSERT("changes exactly on differing call number d+1", BIT(r, w) == (c2 == (unsigned)d + 1));
    ASSERT("value follows", BIT(f.buffered, w) == (BIT(r, w) ? BIT(in, w) : before));
    if (BIT(r, w)) c2 = 0;
    ASSERT("history invariant preserved", f.debounce_count[w] == (c2 == 0 ? 0 : (unsigned)d + 1 - c2) && BIT(f.old_input, w) == BIT(f.buffered, w));
''', P, replace=['debounce_filter'], unwind=34)
U.lemma('init_and_set_start_a_fresh_history', r'''
    IN(debounce_filter_t, f); IN(unsigned, s); IN(unsigned, w); IN(int, which); ASSUME(w < NIN);
    if (which) CALL(debounce_filter_init)(&f); else CALL(debounce_filter_set)(&f, s);
    ASSERT("value", CALL(debounce_value)(&f) == (which ? 0 : s));
    ASSERT("history invariant established with c = 0", f.debounce_count[w] == 0 && BIT(f.old_input, w) == BIT(f.buffered, w));
''', P, replace=['debounce_filter_init', 'debounce_filter_set', 'debounce_value'], unwind=34)
