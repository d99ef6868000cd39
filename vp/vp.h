/* common prelude of every verification unit */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
#include <limits.h>

#define VP_MIN(a, b) ((a) < (b) ? (a) : (b))
#define VP_MAX(a, b) ((a) > (b) ? (a) : (b))
#define VP_IMP(a, b) (!(a) || (b))
#define CALL(f) vp_call_##f
#ifdef VP_BOUNDED
#define VP_IF_BOUNDED(a, b) a
#else
#define VP_IF_BOUNDED(a, b) b
#endif

#ifdef VP_NATIVE
#include <stdio.h>
#include <assert.h>
static int vp_bad;
static float vp_f32(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double vp_f64(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static void vp_init(void) { setvbuf(stdout, 0, _IONBF, 0); }
static int vp_done(void) { if (vp_bad) return 3; printf("VP_OK\n"); return 0; }
static void vp_fail(const char *n, const char *e) { printf("VP_FAILED %s: %s\n", n, e); vp_bad = 1; }
#ifdef VP_RANDOM
static void vp_skip(const char *e);
#else
static void vp_skip(const char *e) { printf("VP_SKIP precondition false: %s\n", e); exit(vp_bad ? 3 : 77); }
#endif
/* inputs: VPV_<name> holds the initializer taken from the counterexample, if any */
#define VP_CAT_(a, b) a##b
#define VP_CAT(a, b) VP_CAT_(a, b)
#ifdef VP_RANDOM
#include <setjmp.h>
static jmp_buf vp_jmp;
static uint64_t vp_seed, vp_cur;
static uint32_t vp_rnd(void) { vp_seed = vp_seed * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(vp_seed >> 33); }
/* random content: per word zero / small / extreme / arbitrary, so that equalities between inputs do occur */
static void vp_fill(void *p, size_t n) {
    uint8_t *b = p;
    int style = vp_rnd() % 4;
    for (size_t i = 0; i < n;) {
        size_t k = n - i >= 8 && n % 8 == 0 ? 8 : n - i >= 4 && n % 4 == 0 ? 4 : n - i >= 2 && n % 2 == 0 ? 2 : 1;
        uint64_t v;
        switch (style == 3 ? vp_rnd() % 6 : vp_rnd() % (style + 2)) {
            case 0: v = 0; break;
            case 1: v = vp_rnd() % 4; break;
            case 2: v = vp_rnd() % 300; break;
            case 3: v = ~(uint64_t)0 - vp_rnd() % 3; break;
            case 4: v = ((uint64_t)1 << (8 * k - 1)) - 1 + vp_rnd() % 3; break;
            default: v = ((uint64_t)vp_rnd() << 40) ^ ((uint64_t)vp_rnd() << 16) ^ vp_rnd();
        }
        memcpy(b + i, &v, k);
        i += k;
    }
}
static void vp_skip(const char *e) { longjmp(vp_jmp, 1); }
#define IN(T, n) T n; vp_fill(&n, sizeof n)
#define VP_SMALL(x, m) (x) %= (m) + 1 /* generated inputs only: keep sizes small */
#else
#define IN(T, n) T n = VPV_##n; printf("input %s\n", #n " = " VP_XSTR(VPV_##n))
#endif
#ifndef VP_SMALL
#define VP_SMALL(x, m)
#endif
/* memory whose content is arbitrary for the prover; natively a fixed pattern (the content is not part of the trace) */
static void *vp_mem(size_t n, unsigned salt) {
    uint8_t *p = malloc(n);
    if (p == NULL) vp_skip("memory for the replay");
#ifdef VP_RANDOM
    vp_fill(p, n);
#else
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i * 37 + (i >> 8) * 11 + salt);
#endif
    return p;
}
#define VP_STR(...) #__VA_ARGS__
#define VP_XSTR(...) VP_STR(__VA_ARGS__)
#define ASSUME(...) do { if (!(__VA_ARGS__)) vp_skip(#__VA_ARGS__); } while (0)
#define ASSERT(name, ...) do { if (!(__VA_ARGS__)) vp_fail(name, #__VA_ARGS__); } while (0)
#define VP_REQUIRE(...) ASSUME(__VA_ARGS__)
#define VP_ENSURE(name, ...) ASSERT(name, __VA_ARGS__)
#define VP_REACH()
#define VP_RW(p, n) 1
#define VP_R(p, n) 1
#define OBJ(p) 0
#define VP_FREED(p) 1
#else
#define IN(T, n) T vpt_##n; T n = vpt_##n
#define VP_SMALL(x, m)
#define vp_mem(n, salt) malloc(n)
#define ASSUME(...) __CPROVER_assume(__VA_ARGS__)
#define ASSERT(name, ...) __CPROVER_assert(__VA_ARGS__, name)
#define VP_REQUIRE(...) __CPROVER_assume(__VA_ARGS__)
#define VP_ENSURE(name, ...) __CPROVER_assert(__VA_ARGS__, "ensures " name)
#define VP_REACH() __CPROVER_assert(0, "vp_reach")
#define VP_RW(p, n) __CPROVER_rw_ok(p, n)
#define VP_R(p, n) __CPROVER_r_ok(p, n)
#define OBJ(p) __CPROVER_object_whole(p)
#ifdef VP_DFCC
#define VP_FREED(p) __CPROVER_was_freed(p)
#else
#define VP_FREED(p) 1
#endif
#endif

#if defined VP_MOD_ABSTRACT && !defined VP_NATIVE
static inline size_t vp_mod(size_t a, size_t b) { size_t r; __CPROVER_assert(b != 0, "division by zero"); if (a < b) return a; if (a - b < b) return a - b; __CPROVER_assume(r < b); return r; } /* some remainder */
#else
static inline size_t vp_mod(size_t a, size_t b) { return a < b ? a : a - b < b ? a - b : a % b; }
#endif
#if defined VP_MUL_ABSTRACT && !defined VP_NATIVE
size_t __CPROVER_uninterpreted_mul(size_t a, size_t b);
#define vp_mul(a, b) vp_mul_((a), (b))
static inline size_t vp_mul_(size_t a, size_t b) { return a == 0 || b == 0 ? 0 : a == 1 ? b : b == 1 ? a : a < b ? __CPROVER_uninterpreted_mul(a, b) : __CPROVER_uninterpreted_mul(b, a); } /* some commutative product */
#else
#define vp_mul(a, b) ((size_t)(a) * (size_t)(b))
#endif
#if defined VP_MUL_ABSTRACT && !defined VP_NATIVE
float __CPROVER_uninterpreted_mulf(float a, float b);
double __CPROVER_uninterpreted_muld(double a, double b);
#define vp_mulf(a, b) __CPROVER_uninterpreted_mulf((a), (b))
#define vp_muld(a, b) __CPROVER_uninterpreted_muld((a), (b))
#else
#define vp_mulf(a, b) ((float)(a) * (float)(b))
#define vp_muld(a, b) ((double)(a) * (double)(b))
#endif
#ifdef VP_MEMCPY_WATCH
#ifndef VP_NATIVE
/* libc contract of memcpy (trusted): disjoint valid ranges; the destination range becomes equal to the source range and
 * nothing else is written.  Stated for one watched byte per written object (VW1/VW2, arbitrary positions); every other
 * byte of the destination object is havocked. */
static uint8_t *VW1, *VW2;
#ifdef VP_MEMCPY_NEW
static size_t VP_MEMCPY_NEW;
#endif
#ifdef VP_COPIED
static size_t vp_copied;
#define VP_COUNT(n) vp_copied += (n)
#else
#define VP_COUNT(n)
#endif
void *memcpy(void *dst, const void *src, size_t n) {
    VP_COUNT(n);
    if (n == 0) return dst;
    __CPROVER_assert(__CPROVER_r_ok(src, n), "memcpy reads inside the source");
    __CPROVER_assert(__CPROVER_w_ok(dst, n), "memcpy writes inside the destination");
    __CPROVER_assert(!__CPROVER_same_object(dst, src), "memcpy source and destination are different objects");
    uint8_t *w = VW1 != NULL && __CPROVER_same_object(dst, VW1) ? VW1 : VW2;
    size_t d = __CPROVER_POINTER_OFFSET(dst);
#ifdef VP_MEMCPY_NEW /* memory allocated by the code itself: watched at position VP_MEMCPY_NEW of the object */
    if ((w == NULL || !__CPROVER_same_object(dst, w)) && VP_MEMCPY_NEW < __CPROVER_OBJECT_SIZE(dst)) w = (uint8_t *)dst - d + VP_MEMCPY_NEW;
#endif
    __CPROVER_assert(w != NULL && __CPROVER_same_object(dst, w), "memcpy destination is a watched object");
    size_t wo = __CPROVER_POINTER_OFFSET(w);
    uint8_t v = (wo >= d && wo - d < n) ? ((const uint8_t *)src)[wo - d] : *w;
    __CPROVER_havoc_object(dst);
    *w = v;
    return dst;
}
#define VP_WATCH1(p) VW1 = (uint8_t *)(p)
#define VP_WATCH2(p) VW2 = (uint8_t *)(p)
#else
#define VP_WATCH1(p) (void)0
#define VP_WATCH2(p) (void)0
#endif
#endif
#endif
