from vp.core import Unit

C = Unit('crc', src=['gel/crc/crc16-ccitt.c', 'gel/crc/crc32.c'], before='#include "crc/crc16-ccitt.h"\n#include "crc/crc32.h"', spec=r'''
/* one byte through the shift register: polynomial division, most significant bit first */
static uint16_t step16(uint16_t crc, uint8_t byte) {
    crc ^= (uint16_t)(byte << 8);
    for (int k = 0; k < 8; k++) crc = crc & 0x8000 ? (uint16_t)((crc << 1) ^ 0x1021) : (uint16_t)(crc << 1);
    return crc;
}
static uint32_t step32(uint32_t crc, uint8_t byte) {
    crc ^= (uint32_t)byte << 24;
    for (int k = 0; k < 8; k++) crc = crc & 0x80000000u ? (crc << 1) ^ 0x04c11db7u : crc << 1;
    return crc;
}
#define NMAX VP_IF_BOUNDED(VP_BOUNDED, 4)
typedef struct { uint8_t b[4]; } blk_t;
''')
P = ['C06']
for f, T, s, sz, buf, init in (('crc16_ccitt', 'unsigned short', 'step16', 'unsigned int', 'block', 'crc'), ('crc32', 'uint32_t', 'step32', 'size_t', 'buf', 'init')):
    # any length.  S(j): remainder after the first j bytes of the message B, defined by S(j + 1) = step(S(j), B[j]); the segment
    # a call is given starts at the arbitrary position OFF
    U = Unit(f, src=['gel/crc/crc16-ccitt.c' if f == 'crc16_ccitt' else 'gel/crc/crc32.c'], before=C.before + '\n#include <stdint.h>\n#include <stddef.h>\n' + C.spec + r"""
static uint8_t *B; static size_t OFF, LEN, J;
#ifdef VP_NATIVE
static @T INIT;
static @T S(size_t j) { @T r = INIT; for (size_t k = 0; k < j; k++) r = @s(r, B[k]); return r; }
#else
@T __CPROVER_uninterpreted_S(size_t j);
#define S __CPROVER_uninterpreted_S
#endif
#define VP_LOOP_MUST(k, w) __CPROVER_assert(k <= LEN, "vploop iterations at most the length " w);
#define VP_LOOP_ASSUME(k) __CPROVER_assume(k <= LEN); if (k < LEN) __CPROVER_assume(S(OFF + k + 1) == @s(S(OFF + k), B[OFF + k]));
""".replace('@T', T).replace('@s', s))
    sig = {'crc16_ccitt': 'unsigned short crc16_ccitt(const unsigned char block[], unsigned int blockLength, unsigned short crc)', 'crc32': 'uint32_t crc32(const uint8_t *buf, size_t len, uint32_t init)'}[f]
    n = 'blockLength' if f == 'crc16_ccitt' else 'len'
    U.contract(sig, requires=['%s == B + OFF && %s == S(OFF) && LEN == %s' % (buf, init, n), 'VP_R(%s, %s)' % (buf, n)], assigns='', ensures={
        'remainder_of_the_message_up_to_here': r'\result == S(OFF + %s)' % n, 'message_not_touched': r'B[J] == \old(B[J])'})
    H = r"""
    IN(size_t, total); IN(size_t, off); IN(@Z, n); IN(size_t, j); IN(@T, r0); IN(unsigned, salt);
#ifdef VP_RANDOM
    total = vp_rnd() % 8 ? vp_rnd() % 600 : 65500 + vp_rnd() % 70000; off = vp_rnd() % 4 ? 0 : vp_rnd() % (total + 1); n = vp_rnd() % 4 ? total - off : vp_rnd() % (total - off + 1);
#endif
    ASSUME(total >= 1 && total <= ((size_t)1 << 40) && off <= total && n <= total - off && j < total);
    B = vp_mem(total, salt); OFF = off; LEN = n; J = j;
""".replace('@Z', sz).replace('@T', T)
    U.proof(f, H + r"""
#ifdef VP_NATIVE
    INIT = r0;
#endif
    CALL(@f)(B + off, n, S(off));""".replace('@f', f), P, loops=dict(int=['@v == S(OFF + @k)']), unwind=10, name=f + '/any_length')
    U.lemma(f + '_continues_with_the_next_segment', H + r"""
#ifdef VP_NATIVE
    INIT = r0;
#endif
    IN(@Z, m); VP_SMALL(m, n); ASSUME(m <= n);
    LEN = m; @T first = CALL(@f)(B + off, m, S(off));
    OFF = off + m; LEN = n - m; @T both = CALL(@f)(B + off + m, n - m, first);
    OFF = off; LEN = n; @T whole = CALL(@f)(B + off, n, S(off));
    ASSERT("the result so far continues with the next segment", both == whole);
""".replace('@Z', sz).replace('@T', T).replace('@f', f), P, replace=[f])
    C.lemma(f + '_is_polynomial_division', 'IN(blk_t, b); IN(unsigned, n); IN(%s, init); VP_SMALL(n, 4); ASSUME(n <= 4);\n' % T + """
    %s want = init; for (unsigned k = 0; k < 4; k++) if (k < n) want = %s(want, b.b[k]);
    blk_t before = b;
    ASSERT("remainder of the message", %s(b.b, n, init) == want);
    for (unsigned k = 0; k < 4; k++) ASSERT("message not touched", b.b[k] == before.b[k]);
    """ % (T, s, f), P, plain=True, unwind=9, bound='messages of at most 4 bytes (cross-check of the proof for any length)')
