from vp.core import Unit

U = Unit('serializer', before='#include "serializer/serializer.h"', spec=r'''
static uint8_t B[16]; /* larger than any encoding: bytes behind it must stay untouched */
static size_t W;
static size_t w_pack8(uint8_t *b, uint64_t v)  { return PACK_UINT8(b, v); }
static size_t w_pack16(uint8_t *b, uint64_t v) { return PACK_UINT16_BE(b, v); }
static size_t w_unpack8(uint32_t *v, uint8_t *b)  { return UNPACK_UINT8(*v, b); }
static size_t w_unpack16(uint32_t *v, uint8_t *b) { return UNPACK_UINT16_BE(*v, b); }
static size_t w_unpack32(uint32_t *v, uint8_t *b) { return UNPACK_UINT32_BE(*v, b); }
/* value of byte number k (0 = first in memory) of an n byte encoding of v */
static uint8_t enc(uint64_t v, int n, int big, int k) { return (uint8_t)(v >> (8 * (big ? n - 1 - k : k))); }
static uint64_t dec(uint8_t *b, int n, int big) {
    uint64_t v = 0;
    for (int k = 0; k < n; k++) v |= (uint64_t)b[k] << (8 * (big ? n - 1 - k : k));
    return v;
}
static int encoded(uint8_t *b, uint64_t v, int n, int big) {
    for (int k = 0; k < n; k++) if (b[k] != enc(v, n, big, k)) return 0;
    return 1;
}
typedef struct { uint8_t b[16]; } bytes_t;
''')
P = ['C07']
def ser(name, vt, n, big):
    U.contract('size_t %s(uint8_t *buf, %s val)' % (name, vt),
        requires=['VP_RW(buf, %d)' % n], assigns=', '.join('buf[%d]' % k for k in range(n)),
        ensures={'returns_size': r'\result == %d' % n, 'byte_order': 'encoded(buf, val, %d, %d)' % (n, big)})
    U.proof(name, 'IN(bytes_t, b); IN(%s, v); IN(uint8_t, o); ASSUME(o <= 16 - %d); CALL(%s)(&b.b[o], v);' % (vt, n, name), P, unwind=10)
def de(name, vt, n, big):
    U.contract('size_t %s(%s *val, uint8_t *buf)' % (name, vt),
        requires=['VP_R(buf, %d)' % n, 'VP_RW(val, sizeof *val)'], assigns='*val',
        ensures={'returns_size': r'\result == %d' % n, 'byte_order': '*val == (%s)dec(buf, %d, %d)' % (vt, n, big)})
    U.proof(name, 'IN(bytes_t, b); IN(uint8_t, o); ASSUME(o <= 16 - %d); IN(%s, v); CALL(%s)(&v, &b.b[o]);' % (n, vt, name), P, unwind=10)
rt = []
ser('serialize_uint8', 'uint8_t', 1, 0)
de('deserialize_uint8', 'uint8_t', 1, 0)
de('deserialize_int8', 'int8_t', 1, 0)
for n in (16, 32, 64):
    for e in ('le', 'be'):
        ser('serialize_uint%d_%s' % (n, e), 'uint%d_t' % n, n // 8, int(e == 'be'))
        de('deserialize_uint%d_%s' % (n, e), 'uint%d_t' % n, n // 8, int(e == 'be'))
        de('deserialize_int%d_%s' % (n, e), 'int%d_t' % n, n // 8, int(e == 'be'))
for n in (8, 16, 32, 64):
    for e in ([''] if n == 8 else ['_le', '_be']):
        s, d, i = 'serialize_uint%d%s' % (n, e), 'deserialize_uint%d%s' % (n, e), 'deserialize_int%d%s' % (n, e)
        U.lemma('roundtrip%d%s' % (n, e), '''
            IN(uint%d_t, v); uint8_t b[8]; uint%d_t u; int%d_t s;
            ASSERT("length", CALL(%s)(b, v) == %d);
            ASSERT("length read back", CALL(%s)(&u, b) == %d && CALL(%s)(&s, b) == %d);
            ASSERT("value read back", u == v);
            ASSERT("signed value read back", s == (int%d_t)v);
        ''' % (n, n, n, s, n // 8, d, n // 8, i, n // 8, n), P, replace=[s, d, i], unwind=10)
for w, n, vt in (('w_pack8', 1, 0), ('w_pack16', 2, 0)):
    U.contract('size_t %s(uint8_t *b, uint64_t v)' % w, requires=['VP_RW(b, %d)' % n], assigns=', '.join('b[%d]' % k for k in range(n)),
        ensures={'returns_size': r'\result == %d' % n, 'byte_order': 'encoded(b, v, %d, 1)' % n})
    U.proof(w, 'IN(bytes_t, b); IN(uint64_t, v); CALL(%s)(b.b, v);' % w, P, unwind=10)
for w, n in (('w_unpack8', 1), ('w_unpack16', 2), ('w_unpack32', 4)):
    U.contract('size_t %s(uint32_t *v, uint8_t *b)' % w, requires=['VP_R(b, %d)' % n, 'VP_RW(v, 4)'], assigns='*v',
        ensures={'returns_size': r'\result == %d' % n, 'byte_order': '*v == dec(b, %d, 1)' % n})
    U.proof(w, 'IN(bytes_t, b); IN(uint32_t, v); CALL(%s)(&v, b.b);' % w, P, unwind=10)
U.assume = ['PACK_/UNPACK_ macros: the argument expressions do not use variables named tmp or size (the macros declare those names)',
            'the real byte order of the host is irrelevant: contracts are over bytes in memory; negative shifted int64 values rely on two\'s complement']

# ---------------------------------------------------------------- maybe.h, struct_update (C12)
M = Unit('maybe', before=r'''
#include "data_structures/maybe.h"
typedef int32_t i32;
MAYBE_DECLARATION(i32)
MAYBE_DEFINITION(i32)
typedef maybe_i32_t mb;
static i32 fn_arg, fn_calls, fn_result;
static i32 fn(i32 x) { fn_arg = x; fn_calls++; return fn_result; }
static mb bind_result;
static mb bfn(i32 x) { fn_arg = x; fn_calls++; return bind_result; }
''')
P = ['C12']
M.contract('mb maybe_i32_return(i32 value)', assigns='', ensures={'just_value': r'\result.nothing == 0 && \result.just == value'})
M.contract('mb maybe_i32_nothing(void)', assigns='', ensures={'nothing': r'\result.nothing != 0'})
M.contract('int maybe_i32_is_just(mb *maybe)', requires=['VP_R(maybe, sizeof *maybe)'], assigns='', ensures={'iff_a_value_is_there': r'(\result != 0) == (maybe->nothing == 0)'})
M.contract('i32 maybe_i32_with_default(mb *maybe, i32 defval)', requires=['VP_R(maybe, sizeof *maybe)'], assigns='', ensures={'value_or_default': r'\result == (maybe->nothing ? defval : maybe->just)'})
M.contract('mb maybe_i32_map(mb m, i32 (*fn)(i32))', params=['m', 'fn'], assigns='fn_arg, fn_calls', ensures={
    'nothing_stays_nothing_and_fn_is_not_called': r'VP_IMP(m.nothing, \result.nothing != 0 && fn_calls == \old(fn_calls))',
    'fn_called_once_on_the_value': r'VP_IMP(!m.nothing, \result.nothing == 0 && \result.just == fn_result && fn_arg == m.just && fn_calls == \old(fn_calls) + 1)'},
    requires=['fn_calls < 1000'])
M.contract('mb maybe_i32_bind(mb m, mb (*fn)(i32))', params=['m', 'fn'], assigns='fn_arg, fn_calls', ensures={
    'nothing_stays_nothing_and_fn_is_not_called': r'VP_IMP(m.nothing, \result.nothing != 0 && fn_calls == \old(fn_calls))',
    'fn_called_once_on_the_value': r'VP_IMP(!m.nothing, \result.nothing == bind_result.nothing && VP_IMP(!bind_result.nothing, \result.just == bind_result.just) && fn_arg == m.just && fn_calls == \old(fn_calls) + 1)'},
    requires=['fn_calls < 1000'])
M.proof('maybe_i32_return', 'IN(i32, v); CALL(maybe_i32_return)(v);', P)
M.proof('maybe_i32_nothing', 'CALL(maybe_i32_nothing)();', P)
M.proof('maybe_i32_is_just', 'IN(mb, m); CALL(maybe_i32_is_just)(&m);', P)
M.proof('maybe_i32_with_default', 'IN(mb, m); IN(i32, d); CALL(maybe_i32_with_default)(&m, d);', P, replace=['maybe_i32_is_just'])
M.proof('maybe_i32_map', 'IN(mb, m); IN(i32, r); fn_result = r; fn_calls = 0; CALL(maybe_i32_map)(m, fn);', P, replace=['maybe_i32_is_just', 'maybe_i32_return'])
M.proof('maybe_i32_bind', 'IN(mb, m); IN(mb, r); bind_result = r; fn_calls = 0; CALL(maybe_i32_bind)(m, bfn);', P, replace=['maybe_i32_is_just'])
M.lemma('laws', r'''
    IN(i32, v); IN(i32, d); IN(i32, r); fn_result = r; fn_calls = 0;
    mb j = CALL(maybe_i32_return)(v), n = CALL(maybe_i32_nothing)(); mb lit = MAYBE_NOTHING;
    ASSERT("just is just, nothing is not", CALL(maybe_i32_is_just)(&j) && !CALL(maybe_i32_is_just)(&n) && !CALL(maybe_i32_is_just)(&lit));
    ASSERT("with_default", CALL(maybe_i32_with_default)(&j, d) == v && CALL(maybe_i32_with_default)(&n, d) == d);
    mb jm = CALL(maybe_i32_map)(j, fn);
    ASSERT("map over just", CALL(maybe_i32_with_default)(&jm, d) == r);
''', P, replace=['maybe_i32_return', 'maybe_i32_nothing', 'maybe_i32_is_just', 'maybe_i32_with_default', 'maybe_i32_map'])
M.assume = ['maybe.h: proved for the instance MAYBE(int32_t); the value type only appears in copies', 'callbacks passed to map/bind return normally and touch nothing else']

S = Unit('struct_update', src=['gel/data_structures/struct_update.c'], before=r'''
#include "data_structures/struct_update.h"
#ifdef VP_NATIVE
#define MAXSIZE 100000
#else
#define MAXSIZE ((size_t)1 << 40)
#endif
static size_t DSIZE;
typedef struct { uint8_t a; uint32_t b; uint16_t c[5]; uint64_t d; uint8_t e; } rec_t;
''', spec=r'''
static rec_t R; static size_t W; static uint16_t ARR[5];
static uint8_t *bytes(void *p) { return (uint8_t *)p; }
''')
S.contract('struct_update_t struct_update_from_data(size_t offset, void *data, size_t size)',
    requires=['VP_R(data, size)', 'size > 0 && size <= MAXSIZE && W < size'], assigns='', ensures={
        'describes_the_region': r'\result.offset == offset && \result.size == size',
        'owns_a_private_copy': r'\result.data != NULL && \result.data != data && bytes(\result.data)[W] == bytes(data)[W]'})
S.contract('void struct_update_apply(void *dest, struct_update_t update)',
    requires=['VP_RW(dest, DSIZE)', 'update.offset <= DSIZE && update.size <= DSIZE - update.offset && VP_R(update.data, update.size) && W < DSIZE'],
    assigns='OBJ(dest)', ensures={
        'field_bytes_written': r'VP_IMP(W >= update.offset && W - update.offset < update.size, bytes(dest)[W] == bytes(update.data)[W - update.offset])',
        'other_bytes_untouched': r'VP_IMP(W < update.offset || W - update.offset >= update.size, bytes(dest)[W] == \old(((uint8_t *)dest)[W]))'})
S.proof('struct_update_from_data', r"""IN(size_t, o); IN(size_t, n); IN(size_t, w); IN(uint8_t, val); VP_SMALL(n, 700); VP_SMALL(w, n); W = w;
    ASSUME(n > 0 && n <= MAXSIZE && w < n); uint8_t *h = malloc(n); ASSUME(h != NULL); h[w] = val; VP_WATCH1(NULL); VP_WATCH2(NULL); CALL(struct_update_from_data)(o, h, n);""", P, defs=['VP_MEMCPY_WATCH', 'VP_MEMCPY_NEW=W'])
S.proof('struct_update_apply', r"""IN(size_t, o); IN(size_t, n); IN(size_t, s); IN(size_t, w); IN(uint8_t, before); IN(uint8_t, val); VP_SMALL(s, 1000); VP_SMALL(n, s); VP_SMALL(w, s); VP_SMALL(o, s - n); W = w; DSIZE = s;
    ASSUME(s <= MAXSIZE && w < s && n <= s && o <= s - n);
    uint8_t *dest = malloc(s), *src = malloc(n + 1); ASSUME(dest && src);
    dest[w] = before; if (w >= o && w - o < n) src[w - o] = val;
    struct_update_t u = {.offset = o, .data = src, .size = n}; VP_WATCH1(dest + w); CALL(struct_update_apply)(dest, u);""", P, defs=['VP_MEMCPY_WATCH'])
S.contract('void struct_update_free(struct_update_t update)', requires=['update.data != NULL && VP_RW(update.data, 1)'], assigns='', frees='update.data',
    ensures={'releases_the_copy': 'VP_FREED(update.data)'})
S.proof('struct_update_free', 'IN(uint8_t, b); uint8_t *h = malloc(8); *h = b; struct_update_t u = {.offset = 0, .data = h, .size = 8}; CALL(struct_update_free)(u);', P)
S.lemma('macros_update_exactly_the_named_field', r'''
    IN(rec_t, r); R = r; rec_t before = R; IN(uint32_t, b); IN(uint16_t, c0); IN(uint16_t, c1); IN(uint64_t, d); IN(int, which);
    uint16_t arr[5] = {c0, c1};
    struct_update_t u;
    if (which == 0) { u = STRUCT_UPDATE(R, b, b); }
    else if (which == 1) { u = STRUCT_UPDATE_ARRAY(R, c, arr, 2); }
    else { u = STRUCT_UPDATE(R, d, d); }
    b ^= 0x5a5a5a5a; arr[0] ^= 1; /* the update holds a copy: later changes of the source do not matter */
    ASSERT("nothing is written before apply", R.b == before.b && R.c[0] == before.c[0] && R.c[1] == before.c[1] && R.d == before.d);
    struct_update_apply(&R, u);
    ASSERT("field b", R.b == (which == 0 ? b ^ 0x5a5a5a5a : before.b));
    ASSERT("field c", which == 1 ? R.c[0] == c0 && R.c[1] == c1 : R.c[0] == before.c[0] && R.c[1] == before.c[1]);
    ASSERT("field d", R.d == (which != 0 && which != 1 ? d : before.d));
    ASSERT("other fields", R.a == before.a && R.e == before.e && R.c[2] == before.c[2] && R.c[3] == before.c[3] && R.c[4] == before.c[4]);
    struct_update_t v = u; v.data = NULL;
    struct_update_apply(&R, (struct_update_t){.offset = 0, .data = &before, .size = sizeof(rec_t)});
    ASSERT("second update applied", R.b == before.b && R.d == before.d && R.c[0] == before.c[0]);
    struct_update_free(u);
''', P, unwind=42, plain=True, note='composition of the three functions with inlined bodies, all values symbolic, structure layout fixed')
S.assume = ['malloc succeeds (struct_update_from_data does not check it)', 'struct_update: sizes up to 2^40 bytes', 'memcpy by its libc contract']
