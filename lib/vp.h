/*
 * Shared by every unit.  A unit is one translation unit that #includes the
 * real .c file(s) of /repo unchanged, adds contracts, and ends with harness
 * functions.  It is built twice from the same text:
 *   - by goto-cc (the contracts are enforced by goto-instrument --dfcc), and
 *   - natively with -DVP_REPLAY (gcc + ASan), to replay a counterexample
 *     on the real code with the same predicates.
 */
#ifndef VP_H
#define VP_H

#include <ngx_config.h>
#include <ngx_core.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_REPLAY

#include <stdio.h>

#define __CPROVER_requires(...)
#define __CPROVER_ensures(...)
#define __CPROVER_assigns(...)
#define __CPROVER_frees(...)
#define __CPROVER_loop_invariant(...)
#define __CPROVER_decreases(...)

static void vp_native_assume(int ok, const char *what)
{
    if (!ok) {
        printf("VP_INFEASIBLE %s\n", what);
        exit(77);
    }
}

static int vp_failed;

static void vp_native_check(int ok, const char *what, int line)
{
    if (!ok) {
        printf("VP_FAILED %s (line %d)\n", what, line);
        fflush(stdout);
        vp_failed = 1;
    }
}

#define VP_PRE(x)        vp_native_assume(!!(x), #x)
#define VP_POST(x)       vp_native_check(!!(x), #x, __LINE__)
#define VP_ASSERT(x)     vp_native_check(!!(x), #x, __LINE__)
#define VP_COVER(x)      do { if (x) printf("VP_COVERED %s\n", #x); } while (0)

#define VP_LOAD_INPUT()  do { } while (0)

#define VP_NATIVE        1

#else /* CBMC */

#define VP_PRE(x)        __CPROVER_assume(x)
/* the contract's ensures clause decides; harness-level lemmas use VP_ASSERT */
#ifdef VP_PLAIN
/* bounded stand-in: the same postconditions, asserted at the call site */
#define VP_POST(x)       __CPROVER_assert(x, "ensures " #x)
#else
#define VP_POST(x)       do { } while (0)
#endif
#define VP_ASSERT(x)     __CPROVER_assert(x, "lemma " #x)
#define VP_COVER(x)      __CPROVER_assert(!(x), "VP_COVER " #x)

/* dfcc makes statics nondeterministic: the stubs' counters start at 0 */
#define VP_LOAD_INPUT()                                                      \
    do {                                                                     \
        vp_in_t vp_nd; in = vp_nd;                                           \
        vp_alloc_n = 0; vp_alloc_fail = 0; vp_alloc_bytes = 0;               \
    } while (0)

#define VP_NATIVE        0

#endif


#ifdef VP_REPLAY
#define VP_SPEC_BEGIN
#define VP_SPEC_END
#else
/* specification code: its own dereferences are not obligations */
#define VP_SPEC_BEGIN                                                        \
    _Pragma("CPROVER check push")                                            \
    _Pragma("CPROVER check disable \"pointer\"")                             \
    _Pragma("CPROVER check disable \"bounds\"")
#define VP_SPEC_END                                                          \
    _Pragma("CPROVER check pop")
#endif


/* allocation stub: every allocation may fail, decided by the input */
static unsigned    vp_alloc_n;
static uint32_t    vp_alloc_fail;       /* bit i: allocation i fails */
static size_t      vp_alloc_bytes;

/* declares the input record of a harness:  VP_DECLARE_INPUT(struct {...}) */
#ifdef VP_REPLAY
#include "vp_input.inc"
#define VP_DECLARE_INPUT(...)                                                \
    typedef __VA_ARGS__  vp_in_t;                                            \
    static vp_in_t in = VP_INPUT_VALUE;
#else
#define VP_DECLARE_INPUT(...)                                                \
    typedef __VA_ARGS__  vp_in_t;                                            \
    static vp_in_t in;
#endif


#if defined VP_LOOP_MEMCPY && !defined VP_REPLAY
/* byte-wise memcpy: keeps concrete bytes concrete during symbolic execution */
void *
memcpy(void *dst, const void *src, size_t n)
{
    size_t         vp_mi;
    const u_char  *vp_s = src;

    /* a scalar destination is written as a scalar, for the same reason */
    if (n == 2 && __CPROVER_OBJECT_SIZE(dst) == 2) {
        *(uint16_t *) dst = vp_s[0] | (vp_s[1] << 8);
        return dst;
    }

    if (n == 4 && __CPROVER_OBJECT_SIZE(dst) == 4) {
        *(uint32_t *) dst = vp_s[0] | (vp_s[1] << 8) | (vp_s[2] << 16)
            | ((uint32_t) vp_s[3] << 24);
        return dst;
    }

    for (vp_mi = 0; vp_mi < n; vp_mi++) {
        ((u_char *) dst)[vp_mi] = ((const u_char *) src)[vp_mi];
    }

    return dst;
}
#endif


static void *
vp_alloc(size_t size)
{
    unsigned  i = vp_alloc_n++;

    if (i < 32 && ((vp_alloc_fail >> i) & 1)) {
        return NULL;
    }

    vp_alloc_bytes += size;

    {
        void  *vp_p = malloc(size);

        VP_PRE(vp_p != NULL);
        return vp_p;
    }
}

#endif
