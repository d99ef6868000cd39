import os, re
from vp import core
from vp.core import Unit
from vp.cast import put

def extract(work, incs):
    """page_manager.h is disabled in the repository by an `#if 0` around its declarations; the verified text is the two files with
    exactly that one directive turned on"""
    d = os.path.join(core.REPO, 'gel/pagemanager')
    out = os.path.join(work, 'pm')
    os.makedirs(out, exist_ok=True)
    h = open(os.path.join(d, 'page_manager.h')).read()
    put(os.path.join(out, 'page_manager.h'), re.sub(r'(?m)^#if 0$', '#if 1', h, count=1).encode())
    put(os.path.join(out, 'page_manager.c'), open(os.path.join(d, 'page_manager.c'), 'rb').read())
    return {'gel/pagemanager/page_manager.c': os.path.join(out, 'page_manager.c')}

def pagemanager(tag, update, ndebug, tier):
    M = Unit('pagemanager' + tag, src=['gel/pagemanager/page_manager.c'], incs=['@REPO/gel/pagemanager'],
             before='#define GEL_SIMPLE_CONFIG_INCLUSION 1\n' + ('#define GEL_PAGEMANAGER_UPDATE_CALLBACK 1\n' if update else '') + ('#define NDEBUG 1\n' if ndebug else ''), spec=r'''
typedef page_manager_t pm_t;
typedef pman_page_t page_t;
enum { CREATE = 1, DESTROY, OPEN, CLOSE, UPDATE, EVENT };
typedef struct { int what, data, model; void *extra; } call_t;
/* every page callback is recorded; a page is recognised by its data (given by create) or its extra argument */
static call_t T[20]; static int N; static int MADE, SHOWN, ANSWER;
static void rec(int what, int data, int model, void *extra) { call_t c = { what, data, model, extra }; if (N < 20) T[N] = c; N++; }
static int p_create(int model, void *extra) { rec(CREATE, 0, model, extra); return MADE; }
static void p_destroy(int data, void *extra) { rec(DESTROY, data, 0, extra); }
static void p_open(int model, int data) { rec(OPEN, data, model, NULL); }
static void p_close(int data) { rec(CLOSE, data, 0, NULL); }
static int p_update(int model, int data) { rec(UPDATE, data, model, NULL); return SHOWN; }
static int p_event(int model, int data, int event) { rec(EVENT, data, model, (void *)(uintptr_t)(unsigned)event); return ANSWER; }
typedef struct { int id, data; uint8_t has; uintptr_t extra; } pin_t;
static page_t page(pin_t i) {
    page_t p; memset(&p, 0, sizeof p); p.id = i.id; p.data = i.data; p.extra = (void *)i.extra;
    if (i.has & 1) p.create = p_create; if (i.has & 2) p.destroy = p_destroy; if (i.has & 4) p.open = p_open; if (i.has & 8) p.close = p_close;
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    if (i.has & 16) p.update = p_update;
#endif
    p.process_event = p_event;
    return p;
}
static int same(page_t a, page_t b) {
    return a.id == b.id && a.data == b.data && a.extra == b.extra && a.create == b.create && a.destroy == b.destroy && a.open == b.open && a.close == b.close && a.process_event == b.process_event
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
        && a.update == b.update
#endif
        ;
}
#define DEPTH PMAN_NAVIGATION_DEPTH
typedef struct { pin_t cur, stack[DEPTH], fresh; unsigned depth; int made, shown, answer, model; uintptr_t extra; } in_t;
static page_t S[DEPTH]; /* the pages below the current one, topmost last */
/* expected calls */
static call_t X[20]; static int NX;
static void want(int what, int data, int model, void *extra) { call_t c = { what, data, model, extra }; X[NX++] = c; }
static void want_close(page_t p) { if (p.close) want(CLOSE, p.data, 0, NULL); }
static void want_destroy(page_t p) { if (p.destroy) want(DESTROY, p.data, 0, p.extra); }
static int want_view(page_t p, int model) { /* the view the page shows, if it has one */
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    if (p.update) { want(UPDATE, p.data, model, NULL); return SHOWN; }
#endif
    return PMAN_VIEW_NULL;
}
static int want_open(page_t p, int model) { if (p.open) want(OPEN, p.data, model, NULL); return want_view(p, model); }
static page_t want_create(page_t p, int model, void *extra) { p.extra = extra; if (p.create) { want(CREATE, 0, model, extra); p.data = MADE; } else p.data = PMAN_DATA_NULL; return p; }
static int as_wanted(void) {
    if (N != NX) return 0;
    for (int k = 0; k < 20; k++) if (k < NX && (T[k].what != X[k].what || T[k].data != X[k].data || T[k].model != X[k].model || T[k].extra != X[k].extra)) return 0;
    return 1;
}
/* the stack holds the first d pages of S */
static int stack_is(pm_t *m, int d) {
    struct navigation_stack s = m->page_stack; page_t p;
    for (int k = DEPTH - 1; k >= 0; k--) if (k < d) { if (navigation_stack_pop(&s, &p) != POP_RESULT_SUCCESS || !same(p, S[k])) return 0; }
    return navigation_stack_is_empty(&s);
}
static void setup(pm_t *m, in_t *i) {
    N = NX = 0; MADE = i->made; SHOWN = i->shown; ANSWER = i->answer;
    memset(m, 0, sizeof *m);
    pman_init(m);
    m->initialized = 1; m->current_page = page(i->cur);
    for (int k = 0; k < DEPTH; k++) { S[k] = page(i->stack[k]); if (k < (int)i->depth) navigation_stack_push(&m->page_stack, &S[k]); }
}
''')
    IN = r'''
    IN(in_t, i); VP_SMALL(i.depth, 5); ASSUME(i.depth <= DEPTH);
    pm_t m; setup(&m, &i); page_t cur = m.current_page, fresh = page(i.fresh); void *extra = (void *)i.extra; int d = (int)i.depth;
'''
    P = ['C24']
    k = dict(plain=True, unwind=22, tier=tier, transform=extract, cost=4)
    def lemma(name, body, split=False, **kk):
        if not split: M.lemma(name, IN + body, P, **dict(k, **kk))
        for depth in range(6) if split else ():
            M.lemma('%s/%d' % (name, depth), 'IN(in_t, i); i.depth = %d;' % depth + IN.split('ASSUME(i.depth <= DEPTH);')[1] + body, P, **dict(k, **kk))
    M.lemma('init_has_no_page', r'''
    pm_t m; pman_init(&m); page_t p;
    ASSERT("no page yet", !m.initialized && navigation_stack_is_empty(&m.page_stack));
    ''', P, **k)
    for fn, ex in (('pman_change_page_extra', 'extra'), ('pman_change_page', 'NULL')):
        call = '%s(&m, i.model, fresh%s)' % (fn, ', extra' if ex == 'extra' else '')
        lemma(fn + '_pushes_the_current_page', r'''
    IN(int, first); if (first) { m.initialized = 0; } ASSUME(first ? d == 0 : d < DEPTH);
    if (!first) want_close(cur);
    page_t n = want_create(fresh, i.model, EX); int v = want_open(n, i.model);
    int r = CALL_;
    ASSERT("closes the old page, creates and opens the new one", as_wanted());
    ASSERT("shows the new page", r == v && same(m.current_page, n) && m.initialized);
    if (!first) S[d] = cur;
    ASSERT("the old page waits below, unless there was none", stack_is(&m, first ? 0 : d + 1));
    '''.replace('CALL_', call).replace('EX', ex))
    for fn, ex in (('pman_swap_page_extra', 'extra'), ('pman_swap_page', 'NULL'), ('pman_rebase_page_extra', 'extra'), ('pman_rebase_page', 'NULL')):
        call = '%s(&m, i.model, fresh%s)' % (fn, ', extra' if ex == 'extra' else '')
        rebase = 'rebase' in fn
        lemma(fn + ('_leaves_only_the_new_page' if rebase else '_replaces_the_current_page'), r'''
    want_close(cur); want_destroy(cur);
    REBASE
    page_t n = want_create(fresh, i.model, EX); int v = want_open(n, i.model);
    int r = CALL_;
    ASSERT("closes and destroys what leaves exactly once, creates and opens the new page", as_wanted());
    ASSERT("shows the new page", r == v && same(m.current_page, n) && m.initialized);
    ASSERT("pages below", stack_is(&m, DLEFT));
    '''.replace('REBASE', 'for (int k = DEPTH - 1; k >= 0; k--) if (k < d) want_destroy(S[k]);' if rebase else '').replace('DLEFT', '0' if rebase else 'd').replace('CALL_', call).replace('EX', ex), split=rebase, tier='thorough' if ndebug else tier)
    lemma('pman_back_returns_to_the_page_below', r'''
    int v = PMAN_VIEW_NULL;
    if (d > 0) { want_close(cur); want_destroy(cur); v = want_open(S[d - 1], i.model); }
    int r = pman_back(&m, i.model);
    ASSERT("closes and destroys the current page once and reopens the one below", as_wanted());
    ASSERT("the page below is current again with its data, the last page stays", r == v && same(m.current_page, d > 0 ? S[d - 1] : cur) && m.initialized);
    ASSERT("pages below", stack_is(&m, d > 0 ? d - 1 : 0));
    ''')
    lemma('pman_reset_to_page_finds_the_topmost_with_that_id', r'''
    IN(int, id); VP_SMALL(id, 3); uint8_t found = 7; int at = -1;
#ifdef VP_RANDOM
    for (int k = 0; k < DEPTH; k++) { S[k].id %= 4; }
#endif
    for (int k = 0; k < DEPTH; k++) if (k < d && S[k].id == id) at = k;
    want_close(cur); want_destroy(cur);
    for (int k = DEPTH - 1; k >= 0; k--) if (k < d && k > at) want_destroy(S[k]);
    int v = at >= 0 ? want_open(S[at], i.model) : PMAN_VIEW_NULL;
    int r = pman_reset_to_page(&m, i.model, id, &found);
    ASSERT("destroys every page above it once and reopens it", as_wanted());
    ASSERT("reports whether there was one", r == v && found == (at >= 0) && m.initialized == (at >= 0));
    ASSERT("it is current with its data", VP_IMP(at >= 0, same(m.current_page, S[at])));
    ASSERT("pages below", stack_is(&m, at >= 0 ? at : 0));
    ''', split=True, tier='thorough' if ndebug else tier)
    lemma('update_and_events_go_to_the_current_page', r'''
    IN(int, event); int v = want_view(cur, i.model); want(EVENT, cur.data, i.model, (void *)(uintptr_t)(unsigned)event);
    int r = pman_page_update(&m, i.model); int a = pman_process_page_event(&m, i.model, event);
    ASSERT("asked the current page", as_wanted() && r == v && a == ANSWER);
    ASSERT("nothing changes", same(m.current_page, cur) && stack_is(&m, d));
    ''')
    lemma('going_back_undoes_a_change_of_page', r'''
    ASSUME(d < DEPTH);
    pman_change_page_extra(&m, i.model, fresh, extra);
    pman_back(&m, i.model);
    ASSERT("the same page, with the same data, above the same pages", same(m.current_page, cur) && stack_is(&m, d));
    ''')
    M.assume = ['page_manager.h is verified with its `#if 0` turned on (the repository does not build this module)', 'page callbacks do not call the page manager', 'PMAN_NAVIGATION_DEPTH as in test/gel_conf.h; no push onto a full stack (asserted by the code); a page is current (initialized) for everything but the first change']

pagemanager('', 1, 0, 'quick')
pagemanager('_noupdate', 0, 0, 'thorough')
pagemanager('_ndebug', 1, 1, 'quick')
