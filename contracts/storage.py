from vp.core import Unit
from vp import cast

# ---------------------------------------------------------------- C21: wear leveling
W = Unit('wearleveling', src=['gel/wearleveling/wearleveling.c'], before='#include "wearleveling/wearleveling.h"', spec=r'''
/* the storage device.  Markers of all blocks; contents are followed for the active block (STORED, what it held before the
 * call) and for what a write puts into a block (NEWBLOCK, NEWMARK, NEWBUF, NEWLEN).  RERR/WERR/MERR: what the driver returns. */
typedef wear_leveled_memory_t wlm_t;
static uint8_t MK[256];
static uint8_t *STORED; static size_t STOREDLEN, RBLOCK, RLEN, NREAD, NWRITE, NEWBLOCK, NEWLEN, DIFF, WATCH, NMARK;
static uint8_t NEWMARK, *NEWBUF, *RBUF; static int RERR, WERR, MERR; static size_t MERRAT, PAGE;
static int d_read(size_t block, uint8_t *buffer, size_t len) {
    NREAD++; RBLOCK = block; RLEN = len; RBUF = buffer;
    ASSERT("driver is asked for a block of the page", block < PAGE);
    if (RERR != 0) return RERR;
    ASSERT("driver fills the whole buffer it was given", VP_RW(buffer, len));
#ifdef VP_NATIVE
    memcpy(buffer, STORED, len);
#else
    if (__CPROVER_w_ok(buffer, len)) {
        uint8_t w = STORED[WATCH], d = STORED[DIFF];
        __CPROVER_havoc_object(buffer);
        buffer[WATCH] = w; buffer[DIFF] = d;
    }
#endif
    return 0;
}
static int d_write(size_t block, uint8_t marker, uint8_t *buffer, size_t len) {
    NWRITE++; NEWBLOCK = block; NEWMARK = marker; NEWBUF = buffer; NEWLEN = len;
    ASSERT("driver is asked for a block of the page", block < PAGE);
    if (WERR == 0 && block < 256) MK[block] = marker;
    return WERR;
}
static int d_marker(size_t block, uint8_t *marker) {
    NMARK++;
    ASSERT("driver is asked for a block of the page", block < PAGE);
    if (MERR != 0 && block == MERRAT) return MERR;
    *marker = MK[block];
    return 0;
}
/* JW: an arbitrary block; the shape of the page is stated block by block */
static size_t JW;
#define FOLLOWS(j) (MK[(j) + 1] == (uint8_t)(MK[j] + 1))
/* every page reachable by writing: erased (all markers E), then written block after block, around and around */
static int page_at(size_t n, size_t a, uint8_t m, uint8_t e, int wrapped, size_t j) {
    if (j >= n) return 1;
    return j <= a ? MK[j] == (uint8_t)(m - (a - j)) : MK[j] == (wrapped ? (uint8_t)(m - (n - (j - a))) : e);
}
static int start_ok(size_t a, uint8_t m, uint8_t e, int wrapped) { return wrapped || m == (uint8_t)(e + a); }
static wlm_t mem(size_t n, size_t a, uint8_t m) { wlm_t w = { .read_block = d_read, .write_block = d_write, .read_marker = d_marker, .blocks_in_page = n, .last_active_block = a, .last_marker = m }; return w; }
static void driver(void) { NREAD = NWRITE = NMARK = 0; RERR = WERR = MERR = 0; }
''', stubs=r'''
/* libc contract of memcmp (trusted), stated for one watched byte and one witness of a difference */
static size_t WATCH, DIFF;
static uint8_t *STORED, *RBUF;
int nondet_int(void);
int memcmp(const void *a, const void *b, size_t n) {
    __CPROVER_assert(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp reads inside both arguments");
    int r = nondet_int();
    if (r == 0) __CPROVER_assume(WATCH >= n || ((const uint8_t *)a)[WATCH] == ((const uint8_t *)b)[WATCH]);
    else __CPROVER_assume(DIFF < n && ((const uint8_t *)a)[DIFF] != ((const uint8_t *)b)[DIFF]);
    return r;
}
''')
GH = 'NREAD, RBLOCK, RLEN, RBUF, NWRITE, NEWBLOCK, NEWMARK, NEWBUF, NEWLEN, NMARK'
VALID = ['VP_RW(wlm, sizeof *wlm)', 'wlm->blocks_in_page >= 1 && wlm->blocks_in_page < 256 && wlm->last_active_block < wlm->blocks_in_page && PAGE == wlm->blocks_in_page',
         'wlm->read_block == d_read && wlm->write_block == d_write && wlm->read_marker == d_marker', 'NREAD == 0 && NWRITE == 0 && NMARK == 0']
KEPT = r'wlm->blocks_in_page == \old(wlm->blocks_in_page) && wlm->read_block == d_read && wlm->write_block == d_write && wlm->read_marker == d_marker'
NEXT = r'(\old(wlm->last_active_block) + 1 >= wlm->blocks_in_page ? 0 : \old(wlm->last_active_block) + 1)'
W.contract('void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block, wl_read_marker_t read_marker, size_t blocks_in_page)',
    requires=['VP_RW(wlm, sizeof *wlm)', 'blocks_in_page >= 1 && blocks_in_page < 256 && PAGE == blocks_in_page && MERR == 0 && NWRITE == 0', 'read_marker == d_marker'],
    assigns='*wlm, ' + GH, ensures={
        'configured': 'wlm->read_block == read_block && wlm->write_block == write_block && wlm->read_marker == read_marker && wlm->blocks_in_page == blocks_in_page',
        'active_block_is_in_the_page': 'wlm->last_active_block < blocks_in_page',
        'markers_are_consecutive_up_to_the_active_block': 'VP_IMP(JW < wlm->last_active_block, FOLLOWS(JW))',
        'the_run_of_markers_ends_at_the_active_block': 'wlm->last_active_block + 1 >= blocks_in_page || !FOLLOWS(wlm->last_active_block)',
        'marker_of_the_active_block': 'wlm->last_marker == MK[wlm->last_active_block]',
        'nothing_written': 'NWRITE == 0'})
W.contract('int wearleveling_read(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)', requires=VALID + ['len > 0 && len <= STOREDLEN && VP_RW(buffer, len) && WATCH < len && DIFF < len'],
    assigns='OBJ(buffer), ' + GH, ensures={
        'reads_the_active_block': r'NREAD == 1 && RBLOCK == wlm->last_active_block && RLEN == len && RBUF == buffer && \result == RERR',
        'every_byte_is_the_stored_one': r'VP_IMP(\result == 0, buffer[WATCH] == STORED[WATCH])', 'nothing_written': 'NWRITE == 0'})
W.contract('int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)', requires=VALID + ['len > 0 && len <= STOREDLEN && VP_R(buffer, len) && WATCH < len && DIFF < len'],
    assigns='*wlm, OBJ(MK), ' + GH, ensures={
        'configuration_kept': KEPT,
        'at_most_one_block_write': 'NWRITE <= 1',
        'reads_the_active_block_first': r'VP_IMP(NREAD > 0, RBLOCK == \old(wlm->last_active_block) && RLEN <= STOREDLEN)',
        'writes_the_next_block_with_the_next_marker': r'VP_IMP(NWRITE == 1, NEWBLOCK == %s && NEWMARK == (uint8_t)(\old(wlm->last_marker) + 1) && NEWBUF == buffer && NEWLEN == len)' % NEXT,
        'written_block_becomes_active': r'VP_IMP(NWRITE == 1 && WERR == 0, wlm->last_active_block == NEWBLOCK && wlm->last_marker == NEWMARK && \result == 0)',
        'failed_or_skipped_write_keeps_the_active_block': r'VP_IMP(NWRITE == 0 || WERR != 0, wlm->last_active_block == \old(wlm->last_active_block) && wlm->last_marker == \old(wlm->last_marker))',
        'driver_errors_are_returned': r'VP_IMP(NWRITE == 1 && WERR != 0, \result == WERR) && VP_IMP(NREAD > 0 && RERR != 0, \result == RERR && NWRITE == 0)',
        'skipped_only_if_every_byte_is_already_stored': r'VP_IMP(NWRITE == 0 && \result == 0, buffer[WATCH] == STORED[WATCH])',
        'unchanged_data_costs_no_write': r'VP_IMP(NWRITE == 1, differs(buffer, len))'})
W.spec += r'''
#ifdef VP_NATIVE
static int differs(const uint8_t *b, size_t n) { return memcmp(b, STORED, n) != 0; }
#else
static int differs(const uint8_t *b, size_t n) { return DIFF < n && b[DIFF] != STORED[DIFF]; }
#endif
'''
P = ['C21']
PG = 'IN(size_t, n); IN(size_t, a); IN(uint8_t, m); VP_SMALL(n, 255); VP_SMALL(a, 3); ASSUME(n >= 1 && n < 256 && a < n); PAGE = n; wlm_t w = mem(n, a, m); driver(); '
BUF = '''IN(size_t, len); VP_SMALL(len, 20); ASSUME(len > 0 && len <= 1000000); STOREDLEN = len; STORED = vp_mem(len, 3); uint8_t *buf = vp_mem(len, %s);
    IN(size_t, wi); IN(size_t, di); WATCH = wi %% len; DIFF = di %% len; '''
B1 = BUF.replace('WATCH = wi %% len; DIFF = di %% len;', 'VP_SMALL(wi, 3); VP_SMALL(di, 3); ASSUME(wi < len && di < len); WATCH = wi; DIFF = di;') % 'diff % 7'
SAME = '\n#ifdef VP_NATIVE\n if (!(diff & 1)) memcpy(buf, STORED, len);\n#endif\n'
W.proof('wearleveling_read', PG + 'IN(unsigned, diff); IN(int, re); RERR = re; ' + B1 + 'CALL(wearleveling_read)(&w, buf, len);', P)
W.proof('wearleveling_write', PG + 'IN(unsigned, diff); IN(int, re); IN(int, we); RERR = re; WERR = we; ' + B1 + SAME + 'CALL(wearleveling_write)(&w, buf, len);', P, unwind=8)
MARKS = 'typedef struct { uint8_t m[256]; } mk_t; '
W.spec += MARKS
W.proof('wearleveling_init', 'IN(size_t, n); VP_SMALL(n, 255); ASSUME(n >= 1 && n < 256); PAGE = n; driver(); IN(mk_t, k); memcpy(MK, k.m, 256); IN(size_t, j); JW = j; wlm_t w; CALL(wearleveling_init)(&w, d_read, d_write, d_marker, n);', P, unwind=257, cost=9,
        note='search loop: at most 255 iterations (blocks_in_page < 256 is the documented precondition), unwound completely')
STEP = r'''
    IN(size_t, n); IN(size_t, a); IN(uint8_t, m); IN(uint8_t, e); IN(int, wrapped); IN(mk_t, k);
    VP_SMALL(n, 255); VP_SMALL(a, 3); VP_SMALL(wrapped, 1); ASSUME(n >= 1 && n < 256 && a < n);
    PAGE = n; driver(); memcpy(MK, k.m, 256);
#ifdef VP_NATIVE
    if (!wrapped) m = e + a;
    for (size_t j = 0; j < n; j++) MK[j] = j <= a ? m - (a - j) : wrapped ? m - (n - (j - a)) : e;
#endif
    ASSUME(start_ok(a, m, e, wrapped));
'''
W.lemma('a_page_that_was_only_written_recovers_its_last_block', STEP + r'''
    JW = a; wlm_t w; CALL(wearleveling_init)(&w, d_read, d_write, d_marker, n);
    size_t g = w.last_active_block; /* instances of the page shape used by the argument */
    ASSUME(page_at(n, a, m, e, wrapped, a) && page_at(n, a, m, e, wrapped, a + 1) && page_at(n, a, m, e, wrapped, g) && page_at(n, a, m, e, wrapped, g + 1));
    ASSERT("after a restart the active block is the one written last", g == a && w.last_marker == m);
''', P, replace=['wearleveling_init'], unwind=257)
W.lemma('an_erased_page_starts_at_block_0', r'''
    IN(size_t, n); IN(uint8_t, e); IN(size_t, j); VP_SMALL(n, 255); ASSUME(n >= 1 && n < 256); PAGE = n; driver(); memset(MK, e, 256); JW = 0;
    wlm_t w; CALL(wearleveling_init)(&w, d_read, d_write, d_marker, n);
    ASSERT("the history starts at block 0", w.last_active_block == 0 && w.last_marker == e && page_at(n, 0, e, e, 0, j) && start_ok(0, e, e, 0));
''', P, replace=['wearleveling_init'], unwind=257)
W.lemma('writing_keeps_the_page_recoverable', STEP + r'''
    IN(unsigned, diff); IN(int, re); IN(int, we); IN(size_t, j); RERR = re; WERR = we; wlm_t w = mem(n, a, m); ASSUME(j < n && page_at(n, a, m, e, wrapped, j));
    uint8_t mj = MK[j];
''' + B1 + SAME + r'''
    int r = CALL(wearleveling_write)(&w, buf, len);
    MK[j] = NWRITE == 1 && WERR == 0 && NEWBLOCK == j ? NEWMARK : mj; /* what the driver does with the write it was given */
    if (NWRITE == 1 && WERR == 0) wrapped = wrapped || NEWBLOCK == 0;
    ASSERT("markers stay in the shape a restart recovers", page_at(n, w.last_active_block, w.last_marker, e, wrapped, j) && start_ok(w.last_active_block, w.last_marker, e, wrapped) && w.last_active_block < n);
    ASSERT("and the active block holds the data of the last successful write", VP_IMP(r == 0, NWRITE == 0 ? buf[WATCH] == STORED[WATCH] : w.last_active_block == NEWBLOCK && NEWBUF == buf && NEWLEN == len));
''', P, replace=['wearleveling_write'], unwind=257)
W.assume = ['the driver (read_block/write_block/read_marker) does what wearleveling.c documents: whole-block reads and writes, a failed write changes nothing; a block write is atomic with respect to a restart',
            'a page starts erased (all markers equal) and is written only through wearleveling_write', 'memcmp by its libc contract', 'init: the marker reads succeed (an error code of read_marker is not reported by the API)', 'len > 0 (a variable length array of size 0 is undefined)']

# ---------------------------------------------------------------- C22: circular event log
E = Unit('circular_event_log', src=['gel/circular_event_log/circular_event_log.c'], before='#include "circular_event_log/circular_event_log.h"', spec=r'''
typedef circular_event_log_t log_t;
static size_t CAP, ESIZE, SAVEPOS, NSAVE, NLOAD, NUM1, NUM2, START1, START2, OUT; static int SERR, LERR1, LERR2; static uint8_t *SAVED, *DST1, *DST2;
static int d_save(uint8_t *event, size_t position) {
    NSAVE++; SAVED = event; SAVEPOS = position;
    ASSERT("saved inside the log", position < CAP);
    return SERR;
}
/* loads `number` events from position `start` on; returns how many, or an error (LERR <= 0 when it is not 1) */
static int d_load(uint8_t *events, size_t number, size_t start) {
    NLOAD++;
    ASSERT("loads events that are inside the log", number == 0 || (start < CAP && number <= CAP - start));
    if (NLOAD == 1) { NUM1 = number; START1 = start; DST1 = events; return LERR1 == 1 ? (int)number : LERR1; }
    NUM2 = number; START2 = start; DST2 = events; return LERR2 == 1 ? (int)number : LERR2;
}
#define TOTAL(l) ((l).full_circle ? (l).max_events : (l).next_position)
/* storage position of the a-th last event, a >= 1 */
static size_t pos(size_t next, size_t cap, size_t a) { return next >= a ? next - a : next + (cap - a); }
static size_t wanted(size_t total, size_t number, size_t jump) { return jump > total ? 0 : VP_MIN(number, total - jump); }
/* position the OUT-th delivered event was loaded from, and whether exactly one call delivered it where it belongs */
static size_t got_from(void) { return OUT < NUM1 ? START1 + OUT : START2 + (OUT - NUM1); }
static log_t make(size_t cap, size_t es, size_t next, int full) { log_t l = { .next_position = next, .max_events = cap, .event_size = es, .full_circle = full, .save_new_event = d_save, .load_events = d_load }; return l; }
''')
LV = '(%s).max_events >= 1 && (%s).max_events <= INT_MAX && (%s).next_position < (%s).max_events && CAP == (%s).max_events && ESIZE == (%s).event_size'
def lv(x): return LV.replace('%s', x)
E.contract('int circular_event_log_new_event(circular_event_log_t *logger, uint8_t *event)', requires=['VP_RW(logger, sizeof *logger)', lv('*logger'), 'NSAVE == 0 && logger->save_new_event == d_save'],
    assigns='logger->next_position, logger->full_circle, NSAVE, SAVED, SAVEPOS', ensures={
        'saved_once_at_the_next_position': r'NSAVE == 1 && SAVED == event && SAVEPOS == \old(logger->next_position) && \result == SERR',
        'failed_save_changes_nothing': r'VP_IMP(SERR != 0, logger->next_position == \old(logger->next_position) && logger->full_circle == \old(logger->full_circle))',
        'next_position_advances_around_the_log': r'VP_IMP(SERR == 0, logger->next_position == (\old(logger->next_position) + 1 == logger->max_events ? 0 : \old(logger->next_position) + 1))',
        'full_once_the_last_position_was_used': r'VP_IMP(SERR == 0, (logger->full_circle != 0) == (\old(logger->full_circle) != 0 || \old(logger->next_position) + 1 == logger->max_events))'})
E.contract('size_t circular_event_log_total_events(circular_event_log_t logger)', requires=[lv('logger')], assigns='', ensures={'events_in_the_log': r'\result == TOTAL(logger)'})
E.contract('int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *events, size_t number, size_t jump)',
    requires=[lv('logger'), 'NLOAD == 0 && NUM1 == 0 && NUM2 == 0 && logger.load_events == d_load'], assigns='NLOAD, NUM1, NUM2, START1, START2, DST1, DST2', ensures={
        'at_most_two_loads': 'NLOAD <= 2',
        'asks_for_the_events_available': r'VP_IMP(LERR1 == 1, NUM1 + NUM2 == wanted(TOTAL(logger), number, jump))',
        'into_consecutive_places_of_the_buffer': 'VP_IMP(NLOAD > 0, DST1 == events) && VP_IMP(NLOAD > 1, DST2 == &events[vp_mul(NUM1, logger.event_size)])',
        'oldest_first_ending_just_before_the_jumped_ones': r'VP_IMP(LERR1 == 1 && OUT < wanted(TOTAL(logger), number, jump), got_from() == pos(logger.next_position, logger.max_events, wanted(TOTAL(logger), number, jump) + jump - OUT))',
        'returns_how_many': r'VP_IMP(LERR1 == 1 && LERR2 == 1, \result >= 0 && (size_t)\result == wanted(TOTAL(logger), number, jump))',
        'returns_the_error_of_a_failed_load': r'VP_IMP(NLOAD > 0 && LERR1 < 0, \result == LERR1) && VP_IMP(NLOAD > 1 && LERR1 == 1 && LERR2 < 0, \result == LERR2)'})
P = ['C22']
LG = 'IN(size_t, cap); IN(size_t, es); IN(size_t, next); IN(int, full); VP_SMALL(cap, 9); VP_SMALL(next, 8); VP_SMALL(full, 1); ASSUME(cap >= 1 && cap <= INT_MAX && next < cap); CAP = cap; ESIZE = es; NSAVE = NLOAD = NUM1 = NUM2 = START1 = START2 = 0; log_t l = make(cap, es, next, full); uint8_t ev[1]; '
E.proof('circular_event_log_new_event', LG + 'IN(int, se); SERR = se; CALL(circular_event_log_new_event)(&l, ev);', P)
E.proof('circular_event_log_total_events', LG + 'CALL(circular_event_log_total_events)(l);', P)
LOAD = 'IN(int, l1); IN(int, l2); ASSUME(l1 <= 1 && l2 <= 1); LERR1 = l1; LERR2 = l2; IN(size_t, number); IN(size_t, jump); IN(size_t, out); OUT = out; CALL(circular_event_log_load_last_events)(l, ev, number, jump);'
E.proof('circular_event_log_load_last_events', LG + LOAD, P,
    replace=['circular_event_log_total_events'], name='load_last_events/which', only=[k for k in E.contracts['circular_event_log_load_last_events'].ensures if not k.startswith('into')])
for m, tier in ((255, 'quick'), (65535, 'thorough')):
    E.proof('circular_event_log_load_last_events', (LG + LOAD).replace('ASSUME(cap', 'ASSUME(es <= %d && cap' % m).replace('VP_SMALL(cap', 'VP_SMALL(es, 255); VP_SMALL(cap'), P,
        name='load_last_events/where/%d' % m, only=['into_consecutive_places_of_the_buffer'], bound='event_size at most %d' % m, tier=tier, timeout=300 if tier == 'quick' else 800)
E.proof('circular_event_log_load_last_events', (LG + LOAD).replace('ASSUME(cap', 'ASSUME(es <= INT_MAX && cap').replace('VP_SMALL(cap', 'VP_SMALL(es, 255); VP_SMALL(cap'), P,
    name='load_last_events/where', only=['into_consecutive_places_of_the_buffer'], transform=cast.products('gel/circular_event_log/circular_event_log.c'), defs=['VP_MUL_ABSTRACT'], loops={},
    note='the product of a position and the event size is some commutative function of the two')
E.lemma('every_event_moves_one_place_back_until_it_is_overwritten', LG + r'''
    IN(int, se); SERR = se; IN(size_t, a); VP_SMALL(a, 8); ASSUME(a >= 1 && a <= TOTAL(l));
    size_t t0 = CALL(circular_event_log_total_events)(l), p0 = pos(l.next_position, cap, a);
    int r = CALL(circular_event_log_new_event)(&l, ev);
    size_t t1 = CALL(circular_event_log_total_events)(l);
    if (r == 0) {
        ASSERT("one event more, up to the capacity", t1 == (t0 < cap ? t0 + 1 : cap));
        ASSERT("the new event is the last one", pos(l.next_position, cap, 1) == SAVEPOS);
        if (a + 1 <= t1) ASSERT("the a-th last event is now the a+1-th last, where it was", pos(l.next_position, cap, a + 1) == p0 && p0 != SAVEPOS);
    } else ASSERT("nothing changed", t1 == t0 && pos(l.next_position, cap, a) == p0);
''', P, replace=['circular_event_log_new_event', 'circular_event_log_total_events'])
E.lemma('an_empty_log_has_no_events', r'''
    IN(size_t, cap); IN(size_t, es); ASSUME(cap >= 1 && cap <= INT_MAX); CAP = cap; ESIZE = es; log_t l = make(cap, es, 0, 0);
    ASSERT("no event", CALL(circular_event_log_total_events)(l) == 0);
''', P, replace=['circular_event_log_total_events'])
E.assume = ['the driver callbacks: save_new_event stores one event at a position, load_events loads consecutive positions and returns how many, or a negative error', 'max_events <= INT_MAX (the result is an int); sizes of the caller\'s buffer are the caller\'s business']
