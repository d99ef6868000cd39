"""C05, iteration macros on lists of any length.  The macros are expanded by the preprocessor from /repo's listx.h into the users of
listx_walk.h and the loops handled by vp/loops.py.  One iteration sees the current node, the one after it and the head; the list is
arbitrary because, when a node is visited, the place of the node before it becomes the one after the next, with links drawn anew."""
import os, subprocess, threading
from vp.core import Unit, VERIF

SRC = os.path.join(VERIF, 'contracts', 'listx_walk.h')

def expand(work, incs):
    out = os.path.join(work, 'listx_walk_expanded.c')
    tmp = out + '.%d' % threading.get_ident()
    r = subprocess.run(['gcc', '-E', '-P', '-x', 'c'] + incs + [SRC, '-o', tmp], capture_output=True, text=True)
    if r.returncode: raise RuntimeError(r.stderr)
    os.replace(tmp, out)
    return {SRC: out}

U = Unit('listx_walk', src=[SRC], spec=r'''
#ifdef VP_NATIVE
#define MAXN 300
static item_t IT[MAXN + 1]; static size_t N, SEEN; static int BACK; static struct list_head HD;
void visit(struct list_head *at) {
    ASSERT("every node once, in order", SEEN < N && at == &IT[BACK ? N - 1 - SEEN : SEEN].l);
    SEEN++;
}
#define WALK(f, back) IN(uint16_t, n); ASSUME(n <= MAXN); N = n; SEEN = 0; BACK = back; INIT_LIST_HEAD(&HD); \
    for (size_t i = 0; i < N; i++) list_add_tail(&IT[i].l, &HD); \
    f(&HD); ASSERT("visits all", SEEN == N);
#else
/* IT[2] is the head, IT[0] and IT[1] are the node being visited and the one after it; EXP is the node whose turn it is */
static item_t IT[3]; static struct list_head *EXP; static item_t SAVE[3]; static int BACK;
#define A (&IT[0].l)
#define B (&IT[1].l)
#define HD (&IT[2].l)
#define FOLLOWING(p) (BACK ? (p)->prev : (p)->next)
static void follow(struct list_head *p, struct list_head *q) { if (BACK) p->prev = q; else p->next = q; }
static int same(void) { return IT[0].l.next == SAVE[0].l.next && IT[1].l.next == SAVE[1].l.next && IT[2].l.next == SAVE[2].l.next
    && IT[0].l.prev == SAVE[0].l.prev && IT[1].l.prev == SAVE[1].l.prev && IT[2].l.prev == SAVE[2].l.prev; }
static void save(void) { for (int i = 0; i < 3; i++) SAVE[i] = IT[i]; }
static struct list_head *other(struct list_head *p) { return p == A ? B : A; }
static int some(void) { int r; return r; }
void visit(struct list_head *at) {
    ASSERT("every node once, in order", at == EXP && at != HD);
    ASSERT("links untouched", same());
    EXP = FOLLOWING(at);
    follow(other(at), some() ? at : HD); /* the node before is done with: its place is now the one after the next */
    save();
}
static int sane(void) { return (EXP == A || EXP == B || EXP == HD) && (FOLLOWING(A) == B || FOLLOWING(A) == HD) && (FOLLOWING(B) == A || FOLLOWING(B) == HD)
    && (FOLLOWING(HD) == A || FOLLOWING(HD) == HD); }
static void draw(void) { int i; struct list_head x[3]; EXP = i == 0 ? A : i == 1 ? B : HD;
    follow(A, some() ? B : HD); follow(B, some() ? A : HD); save(); }
#define WALK(f, back) BACK = back; \
    for (int i = 0; i < 3; i++) IT[i].l.next = IT[i].l.prev = HD; \
    follow(HD, some() ? A : HD); draw(); EXP = FOLLOWING(HD); \
    f(HD); ASSERT("visits all", EXP == HD); ASSERT("links untouched", same());
#endif
''', before=r'''
#ifndef VP_NATIVE
#define VP_LOOP_MUST(k, w) __CPROVER_assert(sane() && same(), "vploop links " w);
#define VP_LOOP_HAVOC(k) draw();
static int sane(void); static int same(void); static void draw(void);
struct list_head; static struct list_head *EXP;
#endif
''')
L = dict(src=[SRC], type={'struct list_head *': ['@v == EXP'], 'item_t *': ['&@v->l == EXP']})
for w, back in (('for_each', 0), ('for_each_prev', 1), ('for_each_entry', 0), ('for_each_entry_reverse', 1)):
    U.lemma('list_%s/any_length' % w, 'WALK(walk_%s, %d)' % (w, back), ['C05'], plain=True, loops=L, transform=expand, unwind=4,
            note='lists of any length; the loop body does not change links')
U.assume = ['listx_walk: the body of the loop does not change the links of the list']
