from vp.core import Unit

SPEC = r'''
#define NE GEL_SCHEDULER_MAX_ENTRIES
#define DAY 86400ul
typedef scheduler_entry_t entry_t;
static size_t J; /* watched entry: arbitrary */
/* broken-down time as mktime/localtime produce it */
#define TIME_OK(t) (VP_R(t, sizeof(struct tm)) && (t)->tm_hour >= 0 && (t)->tm_hour < 24 && (t)->tm_min >= 0 && (t)->tm_min < 60 && (t)->tm_sec >= 0 && (t)->tm_sec <= 60 && (t)->tm_wday >= 0 && (t)->tm_wday < 7)
#define SEC(t) ((unsigned long)((t)->tm_hour * 3600 + (t)->tm_min * 60 + (t)->tm_sec))
/* an entry covers [start, end) of each of its days; an end beyond midnight covers [start, midnight) and [0, end - 24h) */
static int covers(entry_t e, struct tm *t) {
    unsigned long now = SEC(t), s = e.start_second, n = e.end_second;
    if (!((e.days >> t->tm_wday) & 1)) return 0;
    return n > DAY ? (now >= s && now < DAY) || now < n - DAY : now >= s && now < n;
}
static int active(scheduler_t *s, size_t i, struct tm *t) { return s->entries[i].enabled && covers(s->entries[i], t); }
static unsigned long duration(entry_t e) { return e.end_second > e.start_second ? e.end_second - e.start_second : e.start_second - e.end_second; }
static unsigned long week_span(entry_t e) { unsigned n = 0; for (int i = 0; i < 7; i++) n += (e.days >> i) & 1; return duration(e) * n; }
static unsigned long SPAN[NE]; static scheduler_t *SCH;
static void spans(scheduler_t *s, int needed) { SCH = s;
#ifdef VP_DFCC
    if (!needed && !vp_inlined) { unsigned long any[NE]; for (int i = 0; i < NE; i++) SPAN[i] = any[i]; return; }
#endif
    for (int i = 0; i < NE; i++) SPAN[i] = week_span(s->entries[i]); }
static unsigned long span_at(scheduler_entry_t *e) { for (int i = 0; i < NE; i++) if (e == &SCH->entries[i]) return SPAN[i]; return 0; }
#ifdef VP_DFCC
#define SPAN_OF(e) (__CPROVER_same_object(e, SCH) && (e) >= SCH->entries && (e) < SCH->entries + NE)
#else
#define SPAN_OF(e) 1
#endif
/* a wins over b: shorter per week, then larger value, then first in the list */
static int wins(scheduler_t *s, size_t a, size_t b) {
    unsigned long x = SPAN[a], y = SPAN[b];
    if (x != y) return x < y;
    if (s->entries[a].value != s->entries[b].value) return s->entries[a].value > s->entries[b].value;
    return a <= b;
}
/* seconds from now to the end of the running interval */
static unsigned long left(entry_t e, struct tm *t) { unsigned long now = SEC(t); return now >= e.start_second ? e.end_second - now : e.end_second - DAY - now; }
static int eq(entry_t a, entry_t b) { return a.enabled == b.enabled && a.days == b.days && a.start_second == b.start_second && a.end_second == b.end_second && a.value == b.value; }
static int some_enabled(scheduler_t *s, size_t from, size_t to, int which) { for (size_t i = 0; i < NE; i++) if (i >= from && i < to && (s->entries[i].enabled != 0) == which) return 1; return 0; }
/* closed intervals that share more than an end point / share at least a point, on a common day */
static int common(entry_t a, entry_t b, int touching) { unsigned long s = VP_MAX(a.start_second, b.start_second), n = VP_MIN(a.end_second, b.end_second); return (a.days & b.days) && (touching ? s <= n : s < n); }
static size_t overlaps(scheduler_t *s, entry_t e, int touching) { size_t n = 0; for (size_t i = 0; i < NE; i++) n += s->entries[i].enabled && common(s->entries[i], e, touching); return n; }
static const entry_t Z = { 0 };
'''
PROTO = r'''
#include "scheduler/scheduler.h"
int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info);
int scheduler_current_value(scheduler_t *scheduler, struct tm *tm_info, int *value);
int scheduler_get_next_enabled_entry(scheduler_t *scheduler, size_t start);
int scheduler_get_first_available_entry(scheduler_t *scheduler);
uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info);
unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler, size_t entry_index, struct tm *tm_info);
unsigned long scheduler_get_current_remaining_duration(scheduler_t *scheduler, struct tm *tm_info);
size_t scheduler_get_max_schedule_entries(scheduler_t *scheduler);
'''

def unit(n, tier='quick'):
    U = Unit('scheduler_%d' % n, src=['gel/scheduler/scheduler.c'], defs=['GEL_SCHEDULER_MAX_ENTRIES=%d' % n], before=PROTO, spec=SPEC)
    c = U.contract
    S, T = 'VP_RW(scheduler, sizeof *scheduler)', 'VP_R(scheduler, sizeof *scheduler) && TIME_OK(tm_info) && J < NE'
    P17, P18 = ['C17'], ['C18']
    c('int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info)', requires=[T], assigns='', ensures={
        'an_active_enabled_entry_or_none': r'\result >= -1 && \result < (int)NE && VP_IMP(\result >= 0, active(scheduler, \result < 0 ? 0 : \result, tm_info))',
        'none_only_if_none_is_active': r'VP_IMP(\result < 0, !active(scheduler, J, tm_info))',
        'the_most_specific_one': r'VP_IMP(\result >= 0 && active(scheduler, J, tm_info), wins(scheduler, \result < 0 ? 0 : \result, J))'})
    c('uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info)', requires=[T], assigns='', ensures={
        'bit_set_exactly_if_active': r'((\result >> J) & 1) == (active(scheduler, J, tm_info) != 0)', 'no_other_bits': r'(\result >> NE) == 0'})
    c('unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler, size_t entry_index, struct tm *tm_info)', requires=[T], assigns='', ensures={
        'time_to_the_end_if_active': r'\result == (entry_index < NE && active(scheduler, entry_index % NE, tm_info) ? left(scheduler->entries[entry_index % NE], tm_info) : 0)'})
    c('unsigned long scheduler_get_entry_duration(const scheduler_entry_t *entry)', requires=['entry == NULL || VP_R(entry, sizeof *entry)'], assigns='', ensures={
        'length': r'\result == (entry == NULL ? 0 : duration(entry == NULL ? Z : *entry))'})
    c('void scheduler_init(scheduler_t *scheduler)', requires=[S + ' && J < NE'], assigns='*scheduler', ensures={'all_disabled_and_empty': 'eq(scheduler->entries[J], Z)'})
    c('const scheduler_entry_t *scheduler_get_entry(scheduler_t *scheduler, size_t entry_index)', requires=[S], assigns='', ensures={'that_entry_or_none': r'\result == (entry_index < NE ? &scheduler->entries[entry_index] : NULL)'})
    c('scheduler_entry_t *scheduler_get_entry_mut(scheduler_t *scheduler, size_t entry_index)', requires=[S], assigns='', ensures={'that_entry_or_none': r'\result == (entry_index < NE ? &scheduler->entries[entry_index] : NULL)'})
    c('int scheduler_set_entry(scheduler_t *scheduler, size_t entry_index, scheduler_entry_t entry)', requires=[S + ' && J < NE'], assigns='scheduler->entries', ensures={
        'refuses_out_of_range': r'\result == (entry_index < NE ? 0 : -1)',
        'that_entry_only': r'eq(scheduler->entries[J], entry_index == J ? entry : \old(*scheduler).entries[J])'})
    c('uint8_t scheduler_is_schedule_entry_enabled(scheduler_t *scheduler, size_t entry_index)', requires=[S], assigns='', ensures={
        'its_flag': r'\result == (entry_index < NE ? scheduler->entries[entry_index % NE].enabled : 0xff)'})
    c('int scheduler_disable_schedule_entry(scheduler_t *scheduler, size_t entry_index)', requires=[S + ' && J < NE'], assigns='scheduler->entries', ensures={
        'refuses_out_of_range': r'\result == (entry_index < NE ? 0 : -1)',
        'disables_that_entry': r'VP_IMP(entry_index == J, scheduler->entries[J].enabled == 0)',
        'changes_nothing_else': r'scheduler->entries[J].days == \old(*scheduler).entries[J].days && scheduler->entries[J].start_second == \old(*scheduler).entries[J].start_second && scheduler->entries[J].end_second == \old(*scheduler).entries[J].end_second && scheduler->entries[J].value == \old(*scheduler).entries[J].value && (entry_index == J || scheduler->entries[J].enabled == \old(*scheduler).entries[J].enabled)'})
    c('int scheduler_get_next_enabled_entry(scheduler_t *scheduler, size_t start)', requires=[S], assigns='', ensures={
        'first_enabled_from_start': r'\result >= -1 && \result < (int)NE && (\result < 0 ? !some_enabled(scheduler, start, NE, 1) : (size_t)\result >= start && scheduler->entries[\result < 0 ? 0 : \result].enabled && !some_enabled(scheduler, start, \result, 1))'})
    c('int scheduler_get_first_available_entry(scheduler_t *scheduler)', requires=[S], assigns='', ensures={
        'first_disabled': r'\result >= -1 && \result < (int)NE && (\result < 0 ? !some_enabled(scheduler, 0, NE, 0) : !scheduler->entries[\result < 0 ? 0 : \result].enabled && !some_enabled(scheduler, 0, \result, 0))'})
    c('size_t scheduler_get_max_schedule_entries(scheduler_t *scheduler)', requires=[S], assigns='', ensures={'capacity': r'\result == NE'})
    c('size_t scheduler_are_there_overlapping_entries(scheduler_t *scheduler, const scheduler_entry_t *entry)', requires=[S + ' && VP_R(entry, sizeof *entry) && entry->start_second <= entry->end_second && ordered(scheduler)'], assigns='', ensures={
        'counts_the_overlapping_enabled_entries': r'\result >= overlaps(scheduler, *entry, 0) && \result <= overlaps(scheduler, *entry, 1)'})
    U.spec += 'static int ordered(scheduler_t *s) { for (size_t i = 0; i < NE; i++) if (s->entries[i].start_second > s->entries[i].end_second) return 0; return 1; }\n'
    c('size_t scheduler_entry_serialize(uint8_t *buffer, const scheduler_entry_t *entry)', requires=['VP_RW(buffer, 11) && VP_R(entry, sizeof *entry)'], assigns='OBJ(buffer)', ensures={
        'eleven_bytes': r'\result == SCHEDULER_ENTRY_SERIALIZED_SIZE && \result == 11',
        'layout': r'buffer[0] == entry->enabled && buffer[1] == entry->days && LE(buffer + 2) == entry->start_second && LE(buffer + 6) == entry->end_second && buffer[10] == (uint8_t)entry->value'})
    c('size_t scheduler_entry_deserialize(scheduler_entry_t *entry, uint8_t *buffer)', requires=['VP_R(buffer, 11) && VP_RW(entry, sizeof *entry)'], assigns='*entry', ensures={
        'eleven_bytes': r'\result == 11',
        'layout': r'buffer[0] == entry->enabled && buffer[1] == entry->days && LE(buffer + 2) == entry->start_second && LE(buffer + 6) == entry->end_second && entry->value == buffer[10]'})
    U.spec += '#define LE(p) ((uint32_t)(p)[0] | (uint32_t)(p)[1] << 8 | (uint32_t)(p)[2] << 16 | (uint32_t)(p)[3] << 24)\n'
    k = dict(tier=tier, unwind=max(n, 7) + 2, uses=())
    SC = 'IN(scheduler_t, s); IN(size_t, j); VP_SMALL(j, NE - 1); J = j; '
    TM = r'''IN(struct tm, t); VP_SMALL(t.tm_hour, 23); VP_SMALL(t.tm_min, 59); VP_SMALL(t.tm_sec, 60); VP_SMALL(t.tm_wday, 6);
    '''
    ix = 'IN(size_t, x); VP_SMALL(x, NE); '
    # the weekly span is a product: proved on its own, named by logical variables (one per entry) where it is only compared
    c('static unsigned long total_week_timespan(scheduler_entry_t *entry)', requires=['VP_R(entry, sizeof *entry) && SPAN_OF(entry)'], assigns='', ensures={'duration_times_days': r'\result == span_at(entry)'})
    U.proof('total_week_timespan', SC + ix + 'ASSUME(x < NE); spans(&s, 1); CALL(total_week_timespan)(&s.entries[x]);', P17, **k)
    U.proof('scheduler_get_active_entry_number', SC + TM + 'spans(&s, 0); CALL(scheduler_get_active_entry_number)(&s, &t);', P17, cost=9, timeout=300, replace=['total_week_timespan'], **k)
    U.proof('scheduler_get_active_entries_map', SC + TM + 'CALL(scheduler_get_active_entries_map)(&s, &t);', P17, **k)
    U.proof('scheduler_get_schedule_remaining_duration', SC + TM + ix + 'CALL(scheduler_get_schedule_remaining_duration)(&s, x, &t);', P17, **k)
    U.proof('scheduler_get_entry_duration', 'IN(entry_t, e); IN(int, n); CALL(scheduler_get_entry_duration)(n ? NULL : &e);', P17, **k)
    U.proof('scheduler_init', SC + 'CALL(scheduler_init)(&s);', P18, **k)
    for f in ('get_entry', 'get_entry_mut', 'is_schedule_entry_enabled', 'disable_schedule_entry', 'get_next_enabled_entry'):
        U.proof('scheduler_' + f, SC + ix + 'CALL(scheduler_%s)(&s, x);' % f, P18, **k)
    U.proof('scheduler_set_entry', SC + ix + 'IN(entry_t, e); CALL(scheduler_set_entry)(&s, x, e);', P18, **k)
    for f in ('get_first_available_entry', 'get_max_schedule_entries'):
        U.proof('scheduler_' + f, SC + 'CALL(scheduler_%s)(&s);' % f, P18, **k)
    U.proof('scheduler_are_there_overlapping_entries', SC + 'IN(entry_t, e); CALL(scheduler_are_there_overlapping_entries)(&s, &e);', P18, **k)
    U.proof('scheduler_entry_serialize', 'IN(entry_t, e); uint8_t b[11]; CALL(scheduler_entry_serialize)(b, &e);', P18, **k)
    U.proof('scheduler_entry_deserialize', 'IN(entry_t, e); typedef struct { uint8_t x[11]; } b11; IN(b11, b); CALL(scheduler_entry_deserialize)(&e, b.x);', P18, **k)
    U.lemma('an_entry_survives_serialization', r'''
        IN(entry_t, e); entry_t o; uint8_t b[11]; ASSUME(e.value >= 0 && e.value <= 255);
        ASSERT("same size", CALL(scheduler_entry_serialize)(b, &e) == CALL(scheduler_entry_deserialize)(&o, b)); ASSERT("same entry", eq(o, e));
    ''', P18, replace=['scheduler_entry_serialize', 'scheduler_entry_deserialize'], **k)
    U.assume = ['scheduler: static configuration (%d entries); tm_info is a normalized broken-down time; GEL_SCHEDULER_DYNAMIC_ENTRIES does not compile and is out of scope; values outside 0..255 are not preserved by serialization (one byte)' % n]

def derived(n, tier='quick'):
    """the functions that report about the selected entry, over the selection only (named by a ghost constant)"""
    U = Unit('scheduler_selected_%d' % n, src=['gel/scheduler/scheduler.c'], defs=['GEL_SCHEDULER_MAX_ENTRIES=%d' % n], before=PROTO, spec=SPEC + 'static int ID; /* the selected entry, -1 if none */\n')
    U.contract('int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info)', requires=['VP_R(scheduler, sizeof *scheduler) && VP_R(tm_info, sizeof(struct tm))'], assigns='', ensures={'selection': r'\result == ID'})
    U.lemma('value_and_remaining_time_are_those_of_the_selected_entry', r"""
        IN(scheduler_t, s); IN(int, id); IN(struct tm, t); VP_SMALL(t.tm_hour, 23); VP_SMALL(t.tm_min, 59); VP_SMALL(t.tm_sec, 60); VP_SMALL(t.tm_wday, 6); ID = id; int v = 5; ASSUME(TIME_OK(&t));
#ifndef VP_DFCC
        ID = scheduler_get_active_entry_number(&s, &t);
#endif
        ASSUME(ID >= -1 && ID < (int)NE && VP_IMP(ID >= 0, active(&s, ID < 0 ? 0 : ID, &t)));
        size_t x = ID < 0 ? 0 : ID; unsigned long r = scheduler_get_current_remaining_duration(&s, &t);
        int has = scheduler_current_value(&s, &t, &v), act = scheduler_is_active(&s, &t);
        ASSERT("value of the selected entry, or none", has == (ID >= 0) && v == (ID >= 0 ? s.entries[x].value : 5));
        ASSERT("no place for the value", scheduler_current_value(&s, &t, NULL) == (ID >= 0));
        ASSERT("active exactly if one is selected", (act != 0) == (ID >= 0));
        ASSERT("remaining time of the selected entry, or none", r == (ID >= 0 ? left(s.entries[x], &t) : 0));
    """, ['C17'], replace=['scheduler_get_active_entry_number'], tier=tier, unwind=max(n, 7) + 2, timeout=250,
        note='the selection is a pure function (empty frame, proved), named by a ghost constant')

derived(7)
unit(7)
unit(3, 'thorough')
unit(16, 'thorough')
