from vp.core import Unit

# ---------------------------------------------------------------- timecheck.h (C20), for every timestamp type a user may configure
def timecheck(tag, ty, defs, tier='quick'):
    T = Unit('timecheck_' + tag, before='%s\n#include "timer/timecheck.h"' % '\n'.join('#define ' + d for d in defs), spec=r'''
typedef %s ts;
#define UMAX ((ts)-1)
#define HALF (UMAX / 2)
/* b is reached from a by going forward by less than half the range of the timestamp type */
#define AHEAD(a, b) ((ts)((ts)(b) - (ts)(a)))
static int w_after(ts a, ts b) { return time_after(a, b); }
static int w_after_eq(ts a, ts b) { return time_after_or_equal(a, b); }
static int w_before(ts a, ts b) { return time_before(a, b); }
static int w_expired(ts s, ts c, ts d) { return is_expired(s, c, d); }
''' % ty)
    P = ['C20']
    k = dict(tier=tier)
    NH = 'AHEAD(a, b) != (ts)(HALF + 1)' # exactly half the range apart: before/after is ambiguous, nothing is promised
    T.contract('int w_after(ts a, ts b)', requires=[NH], assigns='', ensures={'later_across_wraparound': r'(\result != 0) == (AHEAD(b, a) != 0 && AHEAD(b, a) <= HALF)'})
    T.contract('int w_before(ts a, ts b)', requires=[NH], assigns='', ensures={'earlier_across_wraparound': r'(\result != 0) == (AHEAD(a, b) != 0 && AHEAD(a, b) <= HALF)'})
    T.contract('int w_after_eq(ts a, ts b)', requires=[NH], assigns='', ensures={'not_earlier_across_wraparound': r'(\result != 0) == (AHEAD(b, a) <= HALF)'})
    T.contract('timestamp_t time_interval(timestamp_t a, timestamp_t b)', requires=[NH], assigns='',
               ensures={'distance_across_wraparound': r'\result == (AHEAD(a, b) <= HALF ? AHEAD(a, b) : AHEAD(b, a))'})
    T.contract('int is_loosely_expired(timestamp_t start, timestamp_t current, timestamp_t delay)',
               requires=['delay <= HALF && AHEAD(start, current) <= HALF'], assigns='',
               ensures={'iff_delay_has_passed': r'(\result != 0) == (AHEAD(start, current) >= delay)'})
    T.contract('int is_strictly_expired(timestamp_t start, timestamp_t current, timestamp_t delay)',
               requires=['delay <= HALF && AHEAD(start, current) <= HALF'], assigns='',
               ensures={'iff_more_than_delay_has_passed': r'(\result != 0) == (AHEAD(start, current) > delay)'})
    T.contract('int w_expired(ts s, ts c, ts d)', requires=['d <= HALF && AHEAD(s, c) <= HALF'], assigns='',
               ensures={'iff_delay_has_passed': r'(\result != 0) == (AHEAD(s, c) >= d)'})
    for f in ('w_after', 'w_before', 'w_after_eq', 'time_interval'):
        T.proof(f, 'IN(ts, a); IN(ts, b); CALL(%s)(a, b);' % f, P, **k)
    for f in ('is_loosely_expired', 'is_strictly_expired', 'w_expired'):
        T.proof(f, 'IN(ts, s); IN(ts, c); IN(ts, d); CALL(%s)(s, c, d);' % f, P, **k)
    T.lemma('expiry_is_stable_until_half_range', '''
        IN(ts, s); IN(ts, e1); IN(ts, e2); IN(ts, d); ASSUME(e1 <= e2 && e2 <= HALF && d <= HALF);
        int a = CALL(is_loosely_expired)(s, s + e1, d), b = CALL(is_loosely_expired)(s, s + e2, d);
        ASSERT("once expired it stays expired", VP_IMP(a, b));
        ASSERT("strict implies loose", VP_IMP(CALL(is_strictly_expired)(s, s + e1, d), a));
    ''', P, replace=['is_loosely_expired', 'is_strictly_expired'], **k)
    T.assume = ['two instants are compared only while they are less than half the timestamp range apart']

timecheck('ulong', 'unsigned long', [])
timecheck('u32', 'uint32_t', ['GEL_CUSTOM_TIMESTAMP_TYPE uint32_t'])
timecheck('u64', 'uint64_t', ['GEL_CUSTOM_TIMESTAMP_TYPE uint64_t'], 'thorough')
timecheck('u16', 'uint16_t', ['GEL_CUSTOM_TIMESTAMP_TYPE uint16_t', 'GEL_IGNORE_TIME_TYPECHECK'])

# ---------------------------------------------------------------- stopwatch (C19)
S = Unit('stopwatch', src=['gel/timer/stopwatch.c'], before='#include "timer/stopwatch.h"', spec=r'''
typedef unsigned long ul;
#define HALF ((ul)-1 / 2)
#define VALID(s) ((s) == TIMER_STOPPED || (s) == TIMER_COUNTING || (s) == TIMER_PAUSED)
#define DIST(a, b) ((ul)((b) - (a)) <= HALF ? (ul)((b) - (a)) : (ul)((a) - (b)))
/* elapsed time of the watch at instant t */
static ul elapsed(stopwatch_t s, ul t) { return s.elapsed_time + (s.state == TIMER_COUNTING ? DIST(s.starting_time, t) : 0); }
static int same(stopwatch_t a, stopwatch_t b) { return a.starting_time == b.starting_time && a.elapsed_time == b.elapsed_time && a.total_time == b.total_time && a.state == b.state; }
/* what an observer can tell apart: the starting time only matters while counting */
static int same_obs(stopwatch_t a, stopwatch_t b) { return (a.state != TIMER_COUNTING || a.starting_time == b.starting_time) && a.elapsed_time == b.elapsed_time && a.total_time == b.total_time && a.state == b.state; }
''')
P = ['C19']
RW, RD = 'VP_RW(timer, sizeof *timer)', 'VP_R(timer, sizeof *timer)'
V = 'VALID(timer->state)'
S.contract('void stopwatch_init(stopwatch_t *timer)', requires=[RW], assigns='*timer', ensures={'stopped_and_zero': 'timer->state == TIMER_STOPPED && timer->elapsed_time == 0 && timer->total_time == 0'})
S.contract('int stopwatch_start(stopwatch_t *timer, unsigned long timestamp)', requires=[RW, V], assigns='*timer', ensures={
    'refused_exactly_while_counting': r'\result == (\old(timer->state) == TIMER_COUNTING ? -1 : 0)',
    'refusal_changes_nothing': r'VP_IMP(\result != 0, same(*timer, \old(*timer)))',
    'counts_from_now': r'VP_IMP(\result == 0, timer->state == TIMER_COUNTING && timer->starting_time == timestamp)',
    'keeps_elapsed_and_period': r'timer->elapsed_time == \old(timer->elapsed_time) && timer->total_time == \old(timer->total_time)'})
S.contract('int stopwatch_stop(stopwatch_t *timer)', requires=[RW, V], assigns='*timer', ensures={
    'stopped_and_elapsed_reset': r'timer->state == TIMER_STOPPED && timer->elapsed_time == 0',
    'keeps_period': r'timer->total_time == \old(timer->total_time)',
    'result': r'\result == 0 || (\result == -1 && \old(timer->state) == TIMER_STOPPED)'})
S.contract('int stopwatch_pause(stopwatch_t *timer, unsigned long timestamp)', requires=[RW, V], assigns='*timer', ensures={
    'accepted_exactly_while_counting': r'\result == (\old(timer->state) == TIMER_COUNTING ? 0 : -1)',
    'refusal_changes_nothing': r'VP_IMP(\result != 0, same(*timer, \old(*timer)))',
    'elapsed_frozen_at_this_instant': r'VP_IMP(\result == 0, timer->state == TIMER_PAUSED && timer->elapsed_time == elapsed(\old(*timer), timestamp))',
    'keeps_period': r'timer->total_time == \old(timer->total_time)'})
S.contract('int stopwatch_restart(stopwatch_t *timer, unsigned long timestamp)', requires=[RW, V], assigns='*timer', ensures={
    'counting_from_zero_now': r'\result == 0 && timer->state == TIMER_COUNTING && timer->elapsed_time == 0 && timer->starting_time == timestamp',
    'keeps_period': r'timer->total_time == \old(timer->total_time)'})
S.contract('void stopwatch_change(stopwatch_t *timer, unsigned long period, unsigned long timestamp)', requires=[RW, V], assigns='*timer', ensures={
    'new_period_counting_from_zero_now': 'timer->total_time == period && timer->state == TIMER_COUNTING && timer->elapsed_time == 0 && timer->starting_time == timestamp'})
S.contract('int stopwatch_set(stopwatch_t *timer, unsigned long period)', requires=[RW, V], assigns='*timer', ensures={
    'only_on_a_stopped_watch': r'\result == (\old(timer->state) == TIMER_STOPPED ? 0 : -1)',
    'refusal_changes_nothing': r'VP_IMP(\result != 0, same(*timer, \old(*timer)))',
    'period_set_rest_kept': r'VP_IMP(\result == 0, timer->total_time == period && timer->state == TIMER_STOPPED && timer->elapsed_time == \old(timer->elapsed_time))'})
S.contract('STOPWATCH_STATE stopwatch_get_state(stopwatch_t *timer)', requires=[RD], assigns='', ensures={'state': r'\result == timer->state'})
S.contract('unsigned long stopwatch_get_elapsed(stopwatch_t *timer, unsigned long timestamp)', requires=[RD, V], assigns='', ensures={'elapsed': r'\result == elapsed(*timer, timestamp)'})
S.contract('int stopwatch_set_elapsed(stopwatch_t *timer, unsigned long elapsed)', requires=[RW, V], assigns='*timer', ensures={
    'only_on_a_stopped_watch': r'\result == (\old(timer->state) == TIMER_STOPPED ? 0 : -1)',
    'refusal_changes_nothing': r'VP_IMP(\result != 0, same(*timer, \old(*timer)))',
    'elapsed_set_rest_kept': r'VP_IMP(\result == 0, timer->elapsed_time == elapsed && timer->state == TIMER_STOPPED && timer->total_time == \old(timer->total_time))'})
S.contract('unsigned long stopwatch_get_remaining(stopwatch_t *timer, unsigned long timestamp)', requires=[RD, V], assigns='', ensures={
    'time_to_the_period_never_negative': r'\result == (elapsed(*timer, timestamp) < timer->total_time ? timer->total_time - elapsed(*timer, timestamp) : 0)'})
S.contract('unsigned long stopwatch_get_total_time(stopwatch_t *timer)', requires=[RD], assigns='', ensures={'period': r'\result == timer->total_time'})
S.contract('int stopwatch_is_timer_reached(stopwatch_t *t, unsigned long timestamp)',
    requires=['VP_R(t, sizeof *t)', 'VALID(t->state)', 't->total_time <= HALF && t->elapsed_time <= HALF',
              'VP_IMP(t->state == TIMER_COUNTING, (ul)(timestamp - t->starting_time) <= HALF)'], assigns='', ensures={
    'reached_iff_not_stopped_and_elapsed_covers_the_period': r'(\result != 0) == (t->state != TIMER_STOPPED && elapsed(*t, timestamp) >= t->total_time)'})
H = 'IN(stopwatch_t, s); IN(ul, t); '
S.proof('stopwatch_init', H + 'CALL(stopwatch_init)(&s);', P)
S.proof('stopwatch_start', H + 'CALL(stopwatch_start)(&s, t);', P)
S.proof('stopwatch_stop', H + 'CALL(stopwatch_stop)(&s);', P)
S.proof('stopwatch_pause', H + 'CALL(stopwatch_pause)(&s, t);', P)
S.proof('stopwatch_restart', H + 'CALL(stopwatch_restart)(&s, t);', P, replace=['stopwatch_stop', 'stopwatch_start'])
S.proof('stopwatch_change', H + 'IN(ul, p); CALL(stopwatch_change)(&s, p, t);', P, replace=['stopwatch_restart'])
S.proof('stopwatch_set', H + 'IN(ul, p); CALL(stopwatch_set)(&s, p);', P)
S.proof('stopwatch_get_state', H + 'CALL(stopwatch_get_state)(&s);', P)
S.proof('stopwatch_get_elapsed', H + 'CALL(stopwatch_get_elapsed)(&s, t);', P)
S.proof('stopwatch_set_elapsed', H + 'IN(ul, p); CALL(stopwatch_set_elapsed)(&s, p);', P)
S.proof('stopwatch_get_remaining', H + 'CALL(stopwatch_get_remaining)(&s, t);', P, replace=['stopwatch_get_elapsed'])
S.proof('stopwatch_get_total_time', H + 'CALL(stopwatch_get_total_time)(&s);', P)
S.proof('stopwatch_is_timer_reached', H + 'CALL(stopwatch_is_timer_reached)(&s, t);', P)
ALL = ['stopwatch_start', 'stopwatch_stop', 'stopwatch_pause', 'stopwatch_restart', 'stopwatch_get_elapsed', 'stopwatch_get_remaining', 'stopwatch_is_timer_reached', 'stopwatch_get_total_time']
S.lemma('pause_resume_loses_and_gains_no_time', H + r'''
    IN(ul, d1); IN(ul, d2); IN(ul, d3); ASSUME(s.state == TIMER_COUNTING && d1 <= HALF && d3 <= HALF && d2 <= HALF);
    t = s.starting_time; ul e0 = s.elapsed_time;
    CALL(stopwatch_pause)(&s, t + d1);
    ASSERT("paused: time stands still", CALL(stopwatch_get_elapsed)(&s, t + d1 + d2) == e0 + d1);
    CALL(stopwatch_start)(&s, t + d1 + d2);
    ASSERT("resumed: only running time counts", CALL(stopwatch_get_elapsed)(&s, t + d1 + d2 + d3) == e0 + d1 + d3);
''', P, replace=ALL)
S.lemma('reached_iff_nothing_remains', H + r'''
    ASSUME(VALID(s.state) && s.total_time <= HALF && s.elapsed_time <= HALF && (s.state != TIMER_COUNTING || (ul)(t - s.starting_time) <= HALF));
    ul e = CALL(stopwatch_get_elapsed)(&s, t), r = CALL(stopwatch_get_remaining)(&s, t), p = CALL(stopwatch_get_total_time)(&s);
    ASSERT("elapsed + remaining = period until reached", r == 0 || e + r == p);
    ASSERT("reached iff nothing remains, unless stopped", !!CALL(stopwatch_is_timer_reached)(&s, t) == (s.state != TIMER_STOPPED && r == 0));
''', P, replace=ALL)
S.lemma('setngo_and_restart', H + r'''
    IN(ul, p); IN(ul, d); ASSUME(p <= HALF && d <= HALF); stopwatch_init(&s);
    stopwatch_setngo(&s, p, t);
    ASSERT("remaining", stopwatch_get_remaining(&s, t + d) == (d < p ? p - d : 0) && !!stopwatch_is_timer_reached(&s, t + d) == (d >= p));
    stopwatch_restart(&s, t + d);
    ASSERT("restart begins again", stopwatch_get_elapsed(&s, t + d) == 0 && stopwatch_get_remaining(&s, t + d) == p);
    stopwatch_t z = STOPWATCH_NULL; ASSERT("STOPWATCH_NULL is a stopped watch", stopwatch_get_state(&z) == TIMER_STOPPED && stopwatch_get_elapsed(&z, t) == 0 && stopwatch_get_total_time(&z) == 0);
''', P, plain=True)
S.assume = ['stopwatch: state is one of the three enumerators; period, accumulated time and time since start each at most half the timestamp range (for "reached" only)']

# ---------------------------------------------------------------- gel_timer (C20)
G = Unit('gel_timer', src=['gel/timer/stopwatch.c', 'gel/timer/timer.c'], before='#include "timer/timer.h"\nunsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp);', spec=r'''
typedef unsigned long ul;
#define HALF ((ul)-1 / 2)
#define VALID(s) ((s) == TIMER_STOPPED || (s) == TIMER_COUNTING || (s) == TIMER_PAUSED)
static int fired; static void *fired_user, *fired_arg; static gel_timer_t *fired_timer;
static void cb(gel_timer_t *t, void *user, void *arg) { fired++; fired_timer = t; fired_user = user; fired_arg = arg; }
static ul elapsed(stopwatch_t s, ul t) { return s.elapsed_time + (s.state == TIMER_COUNTING ? (ul)(t - s.starting_time) : 0); }
static int reached(stopwatch_t s, ul t) { return s.state != TIMER_STOPPED && elapsed(s, t) >= s.total_time; }
#define SANE(w, t) (VALID((w).state) && (w).total_time <= HALF && (w).elapsed_time <= HALF && ((w).state != TIMER_COUNTING || (ul)((t) - (w).starting_time) <= HALF))
static int same_config(gel_timer_t a, gel_timer_t b) { return a.autoreload == b.autoreload && a.callback == b.callback && a.arg == b.arg; }
static int same_watch(stopwatch_t a, stopwatch_t b) { return a.starting_time == b.starting_time && a.elapsed_time == b.elapsed_time && a.total_time == b.total_time && a.state == b.state; }
#define KEPT same_config(*timer, \old(*timer))
''')
K = r'same_config(*timer, \old(*timer))'
P = ['C20']
V = 'VALID(timer->stopwatch.state)'
G.contract('gel_timer_t *gel_timer_init(gel_timer_t *timer, unsigned long period, unsigned long timestamp, gel_timer_callback_t cb, void *arg)', requires=[RW], assigns='*timer', ensures={
    'configured': r'\result == timer && timer->callback == cb && timer->arg == arg && timer->autoreload == 0',
    'counting_from_now': 'timer->stopwatch.state == TIMER_COUNTING && timer->stopwatch.elapsed_time == 0 && timer->stopwatch.total_time == period && timer->stopwatch.starting_time == timestamp'})
G.contract('void gel_timer_reset(gel_timer_t *timer, unsigned long timestamp)', requires=[RW, V], assigns='*timer', ensures={
    'run_state_and_period_kept': r'timer->stopwatch.state == \old(timer->stopwatch.state) && timer->stopwatch.total_time == \old(timer->stopwatch.total_time)',
    'starts_over': r'VP_IMP(timer->stopwatch.state != TIMER_STOPPED, elapsed(timer->stopwatch, timestamp) == 0)',
    'stopped_untouched': r'VP_IMP(\old(timer->stopwatch.state) == TIMER_STOPPED, same_watch(timer->stopwatch, \old(timer->stopwatch)))', 'config_kept': K})
G.contract('void gel_timer_stop(gel_timer_t *timer)', requires=[RW, V], assigns='*timer', ensures={
    'stopped': r'timer->stopwatch.state == TIMER_STOPPED && timer->stopwatch.total_time == \old(timer->stopwatch.total_time)', 'config_kept': K})
G.contract('void gel_timer_resume(gel_timer_t *timer, unsigned long timestamp)', requires=[RW, V], assigns='*timer', ensures={
    'counting': r'timer->stopwatch.state == TIMER_COUNTING',
    'elapsed_continues': r'elapsed(timer->stopwatch, timestamp) == elapsed(\old(timer->stopwatch), timestamp) && timer->stopwatch.total_time == \old(timer->stopwatch.total_time)', 'config_kept': K})
G.contract('void gel_timer_set_autoreload(gel_timer_t *timer, uint8_t autoreload)', requires=[RW], assigns='timer->autoreload', ensures={'set': 'timer->autoreload == autoreload'})
G.contract('void gel_timer_pause(gel_timer_t *timer, unsigned long timestamp)', requires=[RW, V, 'VP_IMP(timer->stopwatch.state == TIMER_COUNTING, (ul)(timestamp - timer->stopwatch.starting_time) <= HALF)'], assigns='*timer', ensures={
    'paused_if_it_was_counting': r'timer->stopwatch.state == (\old(timer->stopwatch.state) == TIMER_COUNTING ? TIMER_PAUSED : \old(timer->stopwatch.state))',
    'elapsed_frozen': r'elapsed(timer->stopwatch, timestamp) == elapsed(\old(timer->stopwatch), timestamp) && timer->stopwatch.total_time == \old(timer->stopwatch.total_time)', 'config_kept': K})
G.contract('void gel_timer_change_period(gel_timer_t *timer, unsigned long period, unsigned long timestamp)', requires=[RW, V], assigns='*timer', ensures={
    'run_state_kept': r'timer->stopwatch.state == \old(timer->stopwatch.state)',
    'new_period_starts_over': r'VP_IMP(timer->stopwatch.state != TIMER_STOPPED, timer->stopwatch.total_time == period && elapsed(timer->stopwatch, timestamp) == 0)',
    'stopped_untouched': r'VP_IMP(\old(timer->stopwatch.state) == TIMER_STOPPED, same_watch(timer->stopwatch, \old(timer->stopwatch)))', 'config_kept': K})
G.contract('uint8_t gel_timer_manage_callback(gel_timer_t *timer, unsigned long timestamp, void *user_pointer)',
    requires=[RW, 'timer->callback == cb', 'SANE(timer->stopwatch, timestamp)', 'fired >= 0 && fired < 1000'], assigns='*timer, fired, fired_timer, fired_user, fired_arg', ensures={
    'fires_exactly_when_reached': r'\result == reached(\old(timer->stopwatch), timestamp) && fired == \old(fired) + \result',
    'callback_gets_timer_user_and_arg': r'VP_IMP(\result, fired_timer == timer && fired_user == user_pointer && fired_arg == \old(timer->arg))',
    'one_shot_stops': r'VP_IMP(\result && !\old(timer->autoreload), timer->stopwatch.state == TIMER_STOPPED)',
    'autoreload_starts_the_next_period_now': r'VP_IMP(\result && \old(timer->autoreload), timer->stopwatch.state == TIMER_COUNTING && elapsed(timer->stopwatch, timestamp) == 0 && timer->stopwatch.total_time == \old(timer->stopwatch.total_time))',
    'otherwise_untouched': r'VP_IMP(!\result, same_watch(timer->stopwatch, \old(timer->stopwatch)))', 'config_kept': K})
G.contract('unsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp)', requires=['VP_R(timer, sizeof *timer)', 'SANE(timer->stopwatch, timestamp)'], assigns='', ensures={
    'remaining': r'\result == (elapsed(timer->stopwatch, timestamp) < timer->stopwatch.total_time ? timer->stopwatch.total_time - elapsed(timer->stopwatch, timestamp) : 0)'})
G.contracts.update({k: v for k, v in S.contracts.items()})
G.spec += r'''
#define DIST(a, b) ((ul)((b) - (a)) <= HALF ? (ul)((b) - (a)) : (ul)((a) - (b)))
static int same(stopwatch_t a, stopwatch_t b) { return same_watch(a, b); }
'''
H = 'IN(gel_timer_t, g); IN(ul, t); IN(int, a); IN(int, u); g.callback = cb; g.arg = &a; fired = 0; '
SW = ['stopwatch_stop', 'stopwatch_restart', 'stopwatch_change', 'stopwatch_pause', 'stopwatch_get_state', 'stopwatch_start']
G.proof('gel_timer_init', H + 'IN(ul, p); CALL(gel_timer_init)(&g, p, t, cb, &a);', P)
G.proof('gel_timer_reset', H + 'CALL(gel_timer_reset)(&g, t);', P)
G.proof('gel_timer_stop', H + 'CALL(gel_timer_stop)(&g);', P)
G.proof('gel_timer_resume', H + 'CALL(gel_timer_resume)(&g, t);', P)
G.proof('gel_timer_set_autoreload', H + 'IN(uint8_t, r); CALL(gel_timer_set_autoreload)(&g, r);', P)
G.proof('gel_timer_pause', H + 'CALL(gel_timer_pause)(&g, t);', P)
G.proof('gel_timer_change_period', H + 'IN(ul, p); CALL(gel_timer_change_period)(&g, p, t);', P)
G.proof('gel_timer_manage_callback', H + 'CALL(gel_timer_manage_callback)(&g, t, &u);', P)
G.proof('gel_timer_get_remaining', H + 'CALL(gel_timer_get_remaining)(&g, t);', P)
G.lemma('one_shot_fires_once_autoreload_every_period', H + r'''
    IN(ul, p); IN(uint8_t, rel); IN(ul, d1); IN(ul, d2); ASSUME(p <= HALF && d1 <= HALF && d2 <= HALF);
    CALL(gel_timer_init)(&g, p, t, cb, &a); CALL(gel_timer_set_autoreload)(&g, rel);
    int f1 = CALL(gel_timer_manage_callback)(&g, t + d1, &u);
    ASSERT("fires iff the period passed", f1 == (d1 >= p) && fired == f1);
    if (f1) {
        int f2 = CALL(gel_timer_manage_callback)(&g, t + d1 + d2, &u);
        ASSERT("again only with autoreload and after a whole further period", f2 == (rel && d2 >= p) && fired == 1 + f2);
    }
''', P, replace=['gel_timer_init', 'gel_timer_set_autoreload', 'gel_timer_manage_callback'])
G.lemma('stopped_or_paused_timer_does_not_advance', H + r'''
    IN(int, which); IN(ul, d); ASSUME(g.stopwatch.state == TIMER_COUNTING && SANE(g.stopwatch, t) && !reached(g.stopwatch, t) && d <= HALF && g.stopwatch.elapsed_time + (ul)(t - g.stopwatch.starting_time) <= HALF);
    if (which) CALL(gel_timer_stop)(&g); else CALL(gel_timer_pause)(&g, t);
    ASSUME(g.stopwatch.elapsed_time <= HALF);
    ASSERT("never fires while halted", !CALL(gel_timer_manage_callback)(&g, t + d, &u) && fired == 0);
''', P, replace=['gel_timer_stop', 'gel_timer_pause', 'gel_timer_manage_callback'])
G.lemma('null_timer_is_stopped', H + r'''
    gel_timer_t z = GEL_TIMER_NULL; z.callback = cb; ASSUME(fired == 0);
    ASSERT("GEL_TIMER_NULL never fires", z.autoreload == 0 && z.stopwatch.state == TIMER_STOPPED && !CALL(gel_timer_manage_callback)(&z, t, &u));
''', P, replace=['gel_timer_manage_callback'])
G.assume = ['gel_timer: the callback returns and does not itself modify the timer']

# ---------------------------------------------------------------- state machine (C23)
M = Unit('state_machine', before=r'''
#include "state_machine/state_machine.h"
typedef struct { int n; } model_t;
typedef struct { int code; int arg; } event_t;
DEFINE_STATE_MACHINE(dev, event_t, model_t)
DECLARE_STATE_MACHINE(dev, event_t, model_t)
static int called_state, calls, next_state, next_n; static event_t seen_event; static model_t *seen_model;
static int m0(model_t *m, event_t e) { called_state = 0; calls++; seen_event = e; seen_model = m; m->n = next_n; return next_state; }
static int m1(model_t *m, event_t e) { called_state = 1; calls++; seen_event = e; seen_model = m; m->n = next_n; return next_state; }
static int m2(model_t *m, event_t e) { called_state = 2; calls++; seen_event = e; seen_model = m; m->n = next_n; return next_state; }
static dev_event_manager_t mgr[3];
''', spec='')
M.contract('int dev_sm_send_event(dev_state_machine_t *sm, model_t *pmodel, event_t event)',
    requires=['VP_RW(sm, sizeof *sm)', 'VP_RW(pmodel, sizeof *pmodel)', 'sm->managers == mgr && mgr[0] == m0 && mgr[1] == m1 && mgr[2] == m2', 'sm->state < 3', 'calls >= 0 && calls < 1000'],
    assigns='sm->state, *pmodel, called_state, calls, seen_event, seen_model', ensures={
    'only_the_manager_of_the_current_state_runs_once': r'calls == \old(calls) + 1 && called_state == (int)\old(sm->state)',
    'it_gets_the_model_and_the_event': 'seen_model == pmodel && seen_event.code == event.code && seen_event.arg == event.arg && pmodel->n == next_n',
    'transition_iff_non_negative': r'\result == (next_state >= 0) && sm->state == (next_state >= 0 ? (unsigned)next_state : \old(sm->state))'})
M.proof('dev_sm_send_event', r'''
    IN(unsigned, st); IN(model_t, m); IN(event_t, e); IN(int, ns); IN(int, nn); next_state = ns; next_n = nn; calls = 0;
    mgr[0] = m0; mgr[1] = m1; mgr[2] = m2;
    dev_state_machine_t sm = {.managers = mgr, .state = st}; CALL(dev_sm_send_event)(&sm, &m, e);''', ['C23'])
M.lemma('two_events', r'''
    IN(unsigned, st); IN(model_t, m); IN(event_t, e); IN(event_t, f); IN(int, ns); IN(int, nn); next_state = ns; next_n = nn; calls = 0; ASSUME(st < 3 && ns < 3);
    mgr[0] = m0; mgr[1] = m1; mgr[2] = m2;
    dev_state_machine_t sm = {.managers = mgr, .state = st};
    CALL(dev_sm_send_event)(&sm, &m, e);
    CALL(dev_sm_send_event)(&sm, &m, f);
    ASSERT("the second event goes to the state the first one led to", calls == 2 && called_state == (ns >= 0 ? ns : (int)st) && seen_event.code == f.code);
''', ['C23'], replace=['dev_sm_send_event'])
M.assume = ['state machine: proved for an instance with three states; managers return the index of an existing state or a negative number']
