from vp.core import Unit

U = Unit('pulsecounter', src=['gel/debounce/pulsecounter.c'], before='#include "debounce/pulsecounter.h"', spec=r'''
#define NIN 32
#define BIT(x, i) (((x) >> (i)) & 1u)
static int differs(pulse_filter_t f, unsigned input, int i) { return BIT(f.old_input, i) != BIT(input, i); }
static int accepted(pulse_filter_t f, unsigned input, int i, int debounce) {
    return differs(f, input, i) && (f.filters[i] == 1 || (f.filters[i] == 0 && debounce == 0));
}
static unsigned next_filter(pulse_filter_t f, unsigned input, int i, int debounce) {
    return !differs(f, input, i) ? 0 : f.filters[i] > 0 ? f.filters[i] - 1 : (unsigned)debounce;
}
/* an accepted level change on input i ends a pulse of the configured kind */
static int counted(pulse_filter_t f, unsigned input, int i, int debounce) {
    return accepted(f, input, i, debounce) && (f.type == COUNT_HIGH_PULSE ? BIT(input, i) == 0 : BIT(input, i) == 1);
}
static unsigned accepted_mask(pulse_filter_t f, unsigned input, int debounce) {
    unsigned m = 0;
    for (int i = 0; i < NIN; i++) if (accepted(f, input, i, debounce)) m |= 1u << i;
    return m;
}
static int counted_any(pulse_filter_t f, unsigned input, int debounce) {
    for (int i = 0; i < NIN; i++) if (counted(f, input, i, debounce)) return 1;
    return 0;
}
static int counters_ok(pulse_filter_t o, pulse_filter_t n, unsigned input, int debounce) {
    for (int i = 0; i < NIN; i++) if (n.count[i] != o.count[i] + (counted(o, input, i, debounce) ? 1u : 0u)) return 0;
    return 1;
}
static int filters_ok(pulse_filter_t o, pulse_filter_t n, unsigned input, int debounce) {
    for (int i = 0; i < NIN; i++) if (n.filters[i] != next_filter(o, input, i, debounce)) return 0;
    return 1;
}
static int counts_zero(pulse_filter_t n) { for (int i = 0; i < NIN; i++) if (n.count[i] != 0) return 0; return 1; }
static int filters_zero(pulse_filter_t n) { for (int i = 0; i < NIN; i++) if (n.filters[i] != 0) return 0; return 1; }
static int counts_cleared(pulse_filter_t o, pulse_filter_t n, int i) {
    for (int k = 0; k < NIN; k++) if (n.count[k] != (k == i ? 0 : o.count[k])) return 0;
    return 1;
}
static int filters_same(pulse_filter_t o, pulse_filter_t n) { for (int k = 0; k < NIN; k++) if (n.filters[k] != o.filters[k]) return 0; return 1; }
#define VALID_TYPE(t) ((t) == COUNT_HIGH_PULSE || (t) == COUNT_LOW_PULSE)
''')
U.contract('void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int init)',
    requires=['VP_RW(filter, sizeof *filter)', 'VALID_TYPE(type)'], assigns='*filter',
    ensures={'configured': 'filter->type == type && filter->old_input == init',
             'counts_zero': 'counts_zero(*filter)', 'no_pending_change': 'filters_zero(*filter)'})
U.contract('int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce)',
    requires=['VP_RW(filter, sizeof *filter)', 'VALID_TYPE(filter->type)', 'debounce >= 0'], assigns='*filter',
    ensures={
        'reports_whether_a_pulse_was_counted': r'(\result != 0) == counted_any(\old(*filter), input, debounce) && (\result == 0 || \result == 1)',
        'exactly_the_finished_pulses_are_counted': r'counters_ok(\old(*filter), *filter, input, debounce)',
        'level_changes_only_when_accepted': r'filter->old_input == ((\old(filter->old_input) & ~accepted_mask(\old(*filter), input, debounce)) | (input & accepted_mask(\old(*filter), input, debounce)))',
        'consecutive_call_counts': r'filters_ok(\old(*filter), *filter, input, debounce)',
        'type_kept': r'filter->type == \old(filter->type)',
    })
U.contract('int pulse_level(pulse_filter_t *filter, int i)',
    requires=['VP_R(filter, sizeof *filter)'], assigns='',
    ensures={'level': r'\result == (i < 0 || i >= NIN ? -1 : (int)BIT(filter->old_input, i))'})
U.contract('int pulse_count(pulse_filter_t *filter, int i)',
    requires=['VP_R(filter, sizeof *filter)'], assigns='',
    ensures={'count': r'\result == (i < 0 || i >= NIN ? -1 : (int)filter->count[i])'})
U.contract('void pulse_clear(pulse_filter_t *filter, int i)',
    requires=['VP_RW(filter, sizeof *filter)'], assigns='*filter',
    ensures={'only_that_counter_cleared': r'counts_cleared(\old(*filter), *filter, i)',
             'level_and_filters_untouched': r'filter->old_input == \old(filter->old_input) && filter->type == \old(filter->type) && filters_same(\old(*filter), *filter)'})
P = ['C09']
U.proof('pulse_filter_init', 'IN(pulse_filter_t, f); IN(pulse_type_t, t); IN(unsigned, init); CALL(pulse_filter_init)(&f, t, init);', P, unwind=34)
U.proof('pulse_filter', 'IN(pulse_filter_t, f); IN(unsigned, in); IN(int, d); CALL(pulse_filter)(&f, in, d);', P, unwind=34, cost=5)
U.proof('pulse_level', 'IN(pulse_filter_t, f); IN(int, i); CALL(pulse_level)(&f, i);', P)
U.proof('pulse_count', 'IN(pulse_filter_t, f); IN(int, i); CALL(pulse_count)(&f, i);', P)
U.proof('pulse_clear', 'IN(pulse_filter_t, f); IN(int, i); CALL(pulse_clear)(&f, i);', P, unwind=34)
U.lemma('pulse_needs_d_plus_1_differing_calls_to_end', r'''
    IN(pulse_filter_t, f); IN(unsigned, in); IN(int, d); IN(unsigned, c); IN(unsigned, w);
    ASSUME(d >= 0 && w < NIN && c <= (unsigned)d && VALID_TYPE(f.type));
    ASSUME(f.filters[w] == (c == 0 ? 0 : (unsigned)d + 1 - c));
    unsigned lvl = BIT(f.old_input, w), diff = BIT(in, w) != lvl, cnt = f.count[w];
    CALL(pulse_filter)(&f, in, d);
    unsigned c2 = diff ? c + 1 : 0;
    int now = c2 == (unsigned)d + 1;
    ASSERT("level changes exactly on differing call number d+1", BIT(f.old_input, w) == (now ? !lvl : lvl));
    ASSERT("one count per finished pulse, none otherwise", f.count[w] == cnt + (now && (f.type == COUNT_HIGH_PULSE ? lvl == 1 : lvl == 0)));
    if (now) c2 = 0;
    ASSERT("history invariant preserved", f.filters[w] == (c2 == 0 ? 0 : (unsigned)d + 1 - c2));
''', P, replace=['pulse_filter'], unwind=34)
U.lemma('init_starts_a_fresh_history', r'''
    IN(pulse_filter_t, f); IN(pulse_type_t, t); IN(unsigned, s); IN(unsigned, w); ASSUME(w < NIN && VALID_TYPE(t));
    CALL(pulse_filter_init)(&f, t, s);
    ASSERT("count 0, level init, history invariant with c = 0", f.filters[w] == 0 && CALL(pulse_count)(&f, w) == 0 && CALL(pulse_level)(&f, w) == (int)BIT(s, w));
''', P, replace=['pulse_filter_init', 'pulse_count', 'pulse_level'], unwind=34)
