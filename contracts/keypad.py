from vp.core import Unit

K = Unit('keypad', src=['gel/keypad/keypad.c'], before='#include "keypad/keypad.h"', spec=r'''
typedef unsigned long ul;
typedef keypad_key_t key_t_;
#define HALF ((ul)-1 / 2)
#define PASSED(since, now) ((ul)((now) - (since)))
typedef struct { ul click, longclick, period, now, bits; } call_t;
typedef struct { keypad_event_t event; key_t_ key; } step_t;
/* reachable states of a key */
#define STATE_OK(k) ((k)._state.value <= 1 && (k)._state.oldvalue <= 1 && (k)._state.ignore <= 1 && (int)(k)._state.lastevent >= 0 \
    && ((k)._state.lastevent == KEY_NOTHING || (k)._state.lastevent == KEY_PRESS || (k)._state.lastevent == KEY_CLICK || (k)._state.lastevent == KEY_LONGCLICK || (k)._state.lastevent == KEY_RELEASE) \
    && VP_IMP((k)._state.lastevent == KEY_PRESS, (k)._state.oldvalue == 1) && VP_IMP((k)._state.oldvalue, (k)._state.lastevent == KEY_PRESS || (k)._state.lastevent == KEY_CLICK || (k)._state.lastevent == KEY_LONGCLICK) \
    && VP_IMP((k)._state.ignore, (k)._state.oldvalue == 0 && (k)._state.lastevent == KEY_NOTHING))
/* instants are compared while less than half the range apart */
#define TIMES_OK(c, k) (PASSED((k)._state.time_state, (c).now) <= HALF && PASSED((k)._state.time_period, (c).now) <= HALF)
#define CALL_OK(c) ((c).click <= (c).longclick && (c).longclick <= HALF && (c).period <= HALF)
/* what a key that is looked at reports, held being whether it is pressed now */
static step_t step(key_t_ k, call_t c, int held) {
    step_t s; s.event = KEY_NOTHING;
    k._state.value = held;
    ul since = PASSED(k._state.time_state, c.now), every = PASSED(k._state.time_period, c.now);
    keypad_event_t last = k._state.lastevent;
    if (held != k._state.oldvalue) { /* pressed or let go just now */
        if (held) s.event = KEY_PRESS;
        else if (last == KEY_PRESS) s.event = KEY_RELEASE; /* before it became a click: reported at once */
        if (s.event != KEY_NOTHING) k._state.lastevent = s.event;
        k._state.oldvalue = held; k._state.time_state = c.now; k._state.ignore = 0;
    } else if (!k._state.ignore) {
        if (!held && last != KEY_RELEASE && since > c.click) { s.event = KEY_RELEASE; k._state.lastevent = KEY_RELEASE; }
        else if (held && last == KEY_PRESS && since > c.click) { s.event = KEY_CLICK; k._state.lastevent = KEY_CLICK; k._state.time_period = c.now; }
        else if (held && last == KEY_CLICK && since > c.longclick) { s.event = KEY_LONGCLICK; k._state.lastevent = KEY_LONGCLICK; k._state.time_state = k._state.time_period = c.now; }
        else if (held && last == KEY_CLICK && every > c.period) { s.event = KEY_PRESSING; k._state.time_period = c.now; }
        else if (held && last == KEY_LONGCLICK && every > c.period) { s.event = KEY_LONGPRESS; k._state.time_period = c.now; }
    }
    s.key = k;
    return s;
}
static int pressed(key_t_ k, call_t c) { return k.bitvalue == c.bits; }
static int let_go(key_t_ k, call_t c) { return !pressed(k, c) && k._state.oldvalue; }
static int pending(key_t_ k, call_t c) { return !pressed(k, c) && !k._state.oldvalue && k._state.lastevent != KEY_RELEASE && k._state.lastevent != KEY_NOTHING; }
/* down now, or seen down by a scan that had another key to report */
static int down(key_t_ k, call_t c) { return pressed(k, c) || (!let_go(k, c) && k._state.value); }
static int same_key(key_t_ a, key_t_ b) {
    return a.bitvalue == b.bitvalue && a.code == b.code && a._state.time_state == b._state.time_state && a._state.time_period == b._state.time_period && a._state.value == b._state.value
        && a._state.oldvalue == b._state.oldvalue && a._state.ignore == b._state.ignore && a._state.lastevent == b._state.lastevent;
}
''')
P = ['C10']
ONE = r'''
    IN(key_t_, k); IN(call_t, c); VP_SMALL(c.click, 6); VP_SMALL(c.period, 4);
#ifdef VP_RANDOM
    k._state.lastevent %= 7; k._state.value %= 2; k._state.oldvalue %= 2; k._state.ignore %= 2; c.longclick = c.click + c.longclick % 5; c.now = k._state.time_state + c.now % 12; k._state.time_period = k._state.time_state + k._state.time_period % 3;
    if (vp_rnd() % 3) c.bits = k.bitvalue; if (vp_rnd() % 3) k._state.ignore = 0;
#endif
    ASSUME(k.bitvalue != 0 && STATE_OK(k) && CALL_OK(c) && TIMES_OK(c, k));
'''
RUN = 'keypad_routine(l, c.click, c.longclick, c.period, c.now, c.bits)'
pl = dict(plain=True, unwind=6)
K.lemma('one_key_reports_what_happened_to_it', ONE + r'''
    key_t_ l[2]; memset(l, 0, sizeof l); l[0] = k;
    keypad_update_t u = RUN;
    int looked = pressed(k, c) || let_go(k, c) || pending(k, c);
    step_t s = step(k, c, down(k, c)); if (!looked) { s.event = KEY_NOTHING; s.key = k; }
    ASSERT("the event", u.event == s.event);
    ASSERT("with the code of the key", VP_IMP(u.event != KEY_NOTHING, u.code == k.code));
    ASSERT("the key remembers it", same_key(l[0], s.key));
    ASSERT("reachable states stay reachable", STATE_OK(l[0])); 
    ASSERT("the end of the list is not touched", l[1].bitvalue == 0);
'''.replace('RUN', RUN), P, **pl)
KEYS = r'''
    typedef struct { key_t_ k[3]; } keys_t; IN(keys_t, in); IN(call_t, c); IN(size_t, n); VP_SMALL(n, 3); VP_SMALL(c.click, 6); VP_SMALL(c.period, 4);
    ASSUME(n <= 3);
#ifdef VP_RANDOM
    c.longclick = c.click + c.longclick % 5;
    for (int i = 0; i < 3; i++) { key_t_ *k = &in.k[i]; k->_state.lastevent %= 7; k->_state.oldvalue = k->_state.lastevent == KEY_PRESS ? 1 : k->_state.lastevent == KEY_NOTHING || k->_state.lastevent == KEY_RELEASE ? 0 : k->_state.oldvalue % 2; k->_state.value %= 2;
        k->_state.ignore = k->_state.lastevent == KEY_NOTHING ? k->_state.ignore % 2 : 0; k->_state.time_state = c.now - k->_state.time_state % 12; k->_state.time_period = c.now - k->_state.time_period % 12; k->bitvalue = k->bitvalue % 7 + 1; }
    c.bits %= 8;
#endif
    ASSUME(CALL_OK(c));
    key_t_ l[4], want[4]; memset(l, 0, sizeof l);
    for (size_t i = 0; i < 3; i++) if (i < n) { l[i] = in.k[i]; ASSUME(l[i].bitvalue != 0 && STATE_OK(l[i]) && TIMES_OK(c, l[i]) ); }
    for (size_t i = 0; i < 4; i++) want[i] = l[i];
'''
K.lemma('a_list_of_keys_reports_one_key', KEYS + r'''
    size_t found = 4; int stop = 0;
    for (size_t i = 0; i < 3; i++) if (i < n && !stop) {
        if (pressed(l[i], c)) { found = i; want[i]._state.value = 1; }
        else if (let_go(l[i], c) || pending(l[i], c)) { found = i; stop = 1; }
    }
    keypad_event_t e = KEY_NOTHING;
    if (found < 4) { step_t s = step(l[found], c, down(l[found], c)); e = s.event; want[found] = s.key; }
    keypad_update_t u = RUN;
    ASSERT("the event of the first key let go, or of the last one pressed", u.event == e);
    ASSERT("with the code of that key", VP_IMP(e != KEY_NOTHING, found < 4 && u.code == in.k[found].code));
    for (size_t i = 0; i < 4; i++) ASSERT("only that key moves on", same_key(l[i], want[i]));
'''.replace('RUN', RUN), P, bound='lists of at most 3 keys', cost=5, **pl)
K.lemma('a_press_is_reported_once_and_first', ONE + r'''
    ASSUME(VP_IMP(!pressed(k, c) && !k._state.oldvalue, k._state.value == 0));
    key_t_ l[2]; memset(l, 0, sizeof l); l[0] = k;
    keypad_update_t u = RUN;
    ASSERT("press exactly when the key goes down", (u.event == KEY_PRESS) == (pressed(k, c) && !k._state.oldvalue));
    ASSERT("a click needs a held press longer than the click time", VP_IMP(u.event == KEY_CLICK, pressed(k, c) && k._state.oldvalue && k._state.lastevent == KEY_PRESS && PASSED(k._state.time_state, c.now) > c.click));
    ASSERT("a long click follows a click of the same press", VP_IMP(u.event == KEY_LONGCLICK, pressed(k, c) && k._state.oldvalue && k._state.lastevent == KEY_CLICK && PASSED(k._state.time_state, c.now) > c.longclick));
    ASSERT("a release needs the key to be up", VP_IMP(u.event == KEY_RELEASE, !pressed(k, c)));
    ASSERT("repetition only while held after a click", VP_IMP(u.event == KEY_PRESSING || u.event == KEY_LONGPRESS, pressed(k, c) && k._state.oldvalue && PASSED(k._state.time_period, c.now) > c.period));
    ASSERT("state of the key", VP_IMP(pressed(k, c) || k._state.oldvalue, keypad_get_key_state(&l[0]) == pressed(k, c)));
'''.replace('RUN', RUN), P, **pl)
K.lemma('reset_forgets_every_key', KEYS + r'''
    keypad_reset_keys(l);
    for (size_t i = 0; i < 3; i++) if (i < n) {
        ASSERT("no press, no event, nothing pending", l[i]._state.value == 0 && l[i]._state.oldvalue == 0 && l[i]._state.lastevent == KEY_NOTHING && l[i]._state.ignore == 1 && l[i]._state.time_state == 0 && l[i]._state.time_period == 0);
        ASSERT("the description of the key stays", l[i].bitvalue == in.k[i].bitvalue && l[i].code == in.k[i].code && STATE_OK(l[i]));
    }
    ASSERT("the end of the list is not touched", l[n].bitvalue == 0);
    int none = 1; for (size_t i = 0; i < 3; i++) if (i < n && pressed(l[i], c)) none = 0;
    keypad_update_t u = RUN;
    ASSERT("nothing to report until a key goes down", VP_IMP(none, u.event == KEY_NOTHING));
'''.replace('RUN', RUN), P, bound='lists of at most 3 keys', cost=5, **pl)
K.lemma('descriptions', r'''
    IN(ul, b); IN(int, code); key_t_ k = KEYPAD_KEY(b, code), z = KEYPAD_NULL_KEY;
    ASSERT("key", k.bitvalue == b && k.code == code && k._state.value == 0 && k._state.oldvalue == 0 && k._state.lastevent == KEY_NOTHING && STATE_OK(k));
    ASSERT("end of list", z.bitvalue == 0);
''', P, **pl)
K.assume = ['click time <= long click time; times are less than half the timestamp range apart', 'keypad_get_click_time is declared but not defined anywhere']
