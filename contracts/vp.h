/* Common vocabulary of the contracts.  Nothing here is a copy of library
 * code: it declares ghost state, the abstract view of a job's input, and the
 * (trusted) stand-ins for libc memory functions.
 *
 * P_Cnn macros: a unit is compiled once per property, with -DP_<id>, and
 * ENS_Cnn(e) contributes a postcondition only for that property. */
#ifndef VP_H
#define VP_H
#include <assert.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "config.h"
#include "librsync.h"

typedef unsigned char u8;
#define REQ(e) __CPROVER_requires(e)
#define ENS(e) __CPROVER_ensures(e)
#define ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define RET __CPROVER_return_value
#define OLD(e) __CPROVER_old(e)
#define FRESH(p, n) __CPROVER_is_fresh((p), (n))
#define VP_ASSERT(c, m) __CPROVER_assert((c), "VP " m)
#define VP_ASSUME(c) __CPROVER_assume(c)
/* must be reported FAILED: shows that the point is reachable (vacuity guard) */
#define VP_REACH(m) __CPROVER_assert(0, "REACH " m)

/* Largest object the proofs consider: no real object exceeds it on x86-64. */
#define VP_MAXB ((size_t)1 << 46)

/* Loop contract, inserted at the start of a loop body (bin/annot.py).  First
 * visit: the invariant must hold; then everything the loop assigns is havocked and
 * the invariant assumed, so the body is checked for an arbitrary iteration.  Second
 * visit: the invariant must hold again, the measure has decreased, and the path
 * ends.  A loop exit is reached from the entry state or after an arbitrary
 * iteration.  The invariant is stated where the loop condition has just held. */
int vp_cut[16];
long long vp_meas[16];
#define VP_HV(v) do { __typeof__(v) vp_hv; v = vp_hv; } while (0)
#define VP_CUT(id, inv, meas, havoc) \
    if (!vp_cut[id]) { VP_ASSERT(inv, "loop invariant holds on entry"); havoc; VP_ASSUME(inv); vp_cut[id] = 1; vp_meas[id] = (long long)(meas); } \
    else { VP_ASSERT(inv, "loop invariant is kept"); VP_ASSERT((long long)(meas) >= 0 && (long long)(meas) < vp_meas[id], "loop invariant: measure decreases"); VP_ASSUME(0); }

/* Logging has no effect on the properties. */
#ifndef VP_NO_LOG_STUB
void rs_log0(int level, char const *fn, char const *fmt, ...) { (void)level; (void)fn; (void)fmt; }
#endif

/* ---- tracked cells: memory cells known to hold the witness values -------- */
#ifndef VP_NT
#define VP_NT 3
#endif
u8 *vp_cell[VP_NT];
u8 vp_cellv[VP_NT];
int vp_ncell;

static inline _Bool vp_in_range(const void *p, const void *b, size_t n)
{
    return n && __CPROVER_same_object(p, b)
        && __CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(b)
        && __CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(b) < n;
}
static inline void vp_track(u8 *p, u8 v)
{
    __CPROVER_assert(vp_ncell < VP_NT, "VPTOOL tracked-cell table overflow");
    if (vp_ncell < VP_NT) {
        vp_cell[vp_ncell] = p;
        vp_cellv[vp_ncell] = v;
        vp_ncell++;
    }
}

/* memcpy/memmove as contract stand-ins.  Precondition: both ranges are valid
 * (and disjoint for memcpy).  Effect: every tracked cell in the destination
 * loses its value; every tracked cell in the source is copied to (and tracked
 * at) the destination.  Untracked destination bytes keep an unconstrained
 * value, which over-approximates for properties that speak about tracked
 * bytes only. */
static inline _Bool vp_mv_src(int i, int n0, void *d, const void *s, size_t n)
{
    if (i >= n0) return 0;
    if (vp_in_range(vp_cell[i], d, n)) {
        u8 junk;
        *vp_cell[i] = junk;
    }
    return vp_in_range(vp_cell[i], s, n);
}
#define VP_OFF(i) (__CPROVER_POINTER_OFFSET(vp_cell[i]) - __CPROVER_POINTER_OFFSET(s))
#define VP_CP(i) if (c##i) { u8 *t = (u8 *)d + VP_OFF(i); *t = vp_cellv[i]; vp_track(t, vp_cellv[i]); }
void *vp_memmove(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "VP memmove/memcpy source range valid");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "VP memmove/memcpy destination range valid");
    int n0 = vp_ncell;
    _Bool c0 = vp_mv_src(0, n0, d, s, n);
    _Bool c1 = vp_mv_src(1, n0, d, s, n);
#if VP_NT > 3
    _Bool c2 = vp_mv_src(2, n0, d, s, n);
    _Bool c3 = vp_mv_src(3, n0, d, s, n);
#endif
    VP_CP(0)
    VP_CP(1)
#if VP_NT > 3
    VP_CP(2)
    VP_CP(3)
#else
    __CPROVER_assert(n0 <= 2, "VPTOOL tracked-cell table overflow");
#endif
    __CPROVER_assert(n0 <= 4, "VPTOOL tracked-cell table overflow");
    return d;
}
void *vp_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || !__CPROVER_same_object(d, s)
        || __CPROVER_POINTER_OFFSET(d) + n <= __CPROVER_POINTER_OFFSET(s)
        || __CPROVER_POINTER_OFFSET(s) + n <= __CPROVER_POINTER_OFFSET(d), "VP memcpy ranges disjoint");
    return vp_memmove(d, s, n);
}
#ifdef VP_TRACKED_MEM
#define memcpy(d, s, n) vp_memcpy((d), (s), (n))
#define memmove(d, s, n) vp_memmove((d), (s), (n))
#endif

/* exact byte-by-byte memcpy for ranges of at most VP_SMALL bytes */
#ifdef VP_SMALL
static inline void *vp_smallcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n <= VP_SMALL, "VPTOOL small memcpy bound");
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "VP memmove/memcpy source range valid");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "VP memmove/memcpy destination range valid");
    u8 t[VP_SMALL];
    for (size_t i = 0; i < VP_SMALL; i++)
        if (i < n) t[i] = ((const u8 *)s)[i];
    for (size_t i = 0; i < VP_SMALL; i++)
        if (i < n) ((u8 *)d)[i] = t[i];
    return d;
}
#define memcpy(d, s, n) vp_smallcpy((d), (s), (n))
#define memmove(d, s, n) vp_smallcpy((d), (s), (n))
#endif

/* ---- abstract view of a job's pending input ------------------------------ */
#define VLEN(job) ((job)->scoop_avail + (job)->stream->avail_in)
#define VPTR(job, i) ((i) < (job)->scoop_avail ? (job)->scoop_next + (i) \
                      : (u8 *)(job)->stream->next_in + ((i) - (job)->scoop_avail))
#endif
