/* Weak checksums: the documented functions, and the lemmas that make rolling
 * equal to starting over.
 *   rollsum:    s1(w.b) = s1(w)+b+31, s2(w.b) = s2(w)+s1(w.b)     (mod 2^16)
 *   rabinkarp:  h()=1, h(w.b) = h(w)*M+b                          (mod 2^32)
 * The abstract window is w; a state represents w when its digest-relevant bits
 * are f(w) and count == |w| (and, for rabinkarp, mult == M^|w|). */
#include "vp.h"
#include "checksum.h"
typedef uint32_t u32;
#define M 0x08104225u
#define VP_EQ16(a, b) ((uint16_t)(a) == (uint16_t)(b))
static u32 vp_mix(u32 h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h; }

/* Ghost code around each loop body of a bulk update.  VP_BEGIN checks that the
 * code's pointer is at the position folded so far and lets it read the next bytes
 * of the buffer from a copy at a fixed address (which keeps the addresses concrete
 * for the verifier); VP_END folds the bytes the body stepped over into the
 * specification and puts the pointer back into the buffer. */
#define CH 16
const u8 *gb;
size_t gn, glen;
u8 chunk[CH];
uint_fast16_t g1, g2;
u32 gh;
#define HVG VP_HV(gn); VP_HV(g1); VP_HV(g2); VP_HV(gh)
#define RS_INV (n >= 1 && n <= len && gn == len - n && buf == gb + gn && s1 == g1 && s2 == g2)
#ifdef VP_POW
#define VP_RKH 1            /* only mult is at stake */
#else
#define VP_RKH (hash == gh)
#endif
#define RK_INV (n >= 1 && n <= len && gn == len - n && buf == gb + gn && VP_RKH)
#define RS_BEGIN(id, c) VP_CUT(id, RS_INV && (c), n, VP_HV(n); VP_HV(s1); VP_HV(s2); HVG; buf = gb + gn) vp_chunk(); buf = chunk;
#define RK_BEGIN(id, c) VP_CUT(id, RK_INV && (c), n, VP_HV(n); VP_HV(hash); HVG; buf = gb + gn) vp_chunk(); buf = chunk;
#define VP_END(p) vp_fold(p); p = gb + gn;
static void vp_chunk(void)
{
    u8 any[CH];             /* = gb[gn ..]: the buffer's bytes are arbitrary and each is visited once */
    for (size_t i = 0; i < CH; i++)
        chunk[i] = any[i];
}
static void vp_fold(const u8 *to)
{
    VP_ASSERT(__CPROVER_same_object(to, chunk) && __CPROVER_POINTER_OFFSET(to) <= CH, "VPTOOL loop body steps over at most CH bytes");
    VP_ASSERT((size_t)(to - chunk) <= glen - gn, "loop body stays inside the buffer");
    for (const u8 *c = chunk; c != to; c++) {
        u8 b = *c;
        gn++;
        g1 += b; g2 += g1;                      /* without the offset */
        gh = gh * M + b;
    }
}
#ifdef VP_POW
u32 __CPROVER_uninterpreted_pow(u32);
static inline u32 rabinkarp_pow(u32 n) ASG() ENS(RET == __CPROVER_uninterpreted_pow(n));
#endif
#include "rollsum.c"
#include "rabinkarp.c"
void rs_mdfour(u8 *o, const void *b, size_t n) { }

/* ---- rollsum ---- */
void h_rs_init(void)
{
    weaksum_t w;
    weaksum_init(&w, RS_ROLLSUM);
    VP_ASSERT(w.kind == RS_ROLLSUM && weaksum_count(&w) == 0 && VP_EQ16(w.sum.rs.s1, 0) && VP_EQ16(w.sum.rs.s2, 0), "init represents the empty window");
    weaksum_t v; v.kind = RS_ROLLSUM;
    weaksum_reset(&v);
    VP_ASSERT(v.kind == RS_ROLLSUM && weaksum_count(&v) == 0 && VP_EQ16(v.sum.rs.s1, 0) && VP_EQ16(v.sum.rs.s2, 0), "reset represents the empty window");
    weaksum_t x; x.kind = RS_ROLLSUM;
    VP_ASSERT(weaksum_digest(&x) == vp_mix(((u32)(uint16_t)x.sum.rs.s2 << 16) | (uint16_t)x.sum.rs.s1), "digest is mix(s2:s1)");
    VP_ASSERT(RollsumDigest(&x.sum.rs) == (((u32)(uint16_t)x.sum.rs.s2 << 16) | (uint16_t)x.sum.rs.s1), "rollsum digest is s2:s1");
    VP_REACH("end");
}
void h_rs_roll(void)
{
    weaksum_t w, o; u8 a, b;
    /* an arbitrary state, and f(a.w) written from f(w)=(t1,t2), |w|=n by the lemma below */
    u32 t1, t2; size_t n;
    VP_ASSUME(n < ((size_t)1 << 62));
    w.kind = RS_ROLLSUM;
    o = w;
    weaksum_rollin(&w, b);
    VP_ASSERT(weaksum_count(&w) == weaksum_count(&o) + 1 && VP_EQ16(w.sum.rs.s1, o.sum.rs.s1 + b + 31)
              && VP_EQ16(w.sum.rs.s2, o.sum.rs.s2 + o.sum.rs.s1 + b + 31) && w.kind == RS_ROLLSUM, "rollin appends a byte");
    w.sum.rs.count = n + 1;
    w.sum.rs.s1 = (u32)t1 + a + 31u + (o.sum.rs.s1 & ~(uint_fast16_t)0xffff);
    w.sum.rs.s2 = (u32)t2 + (u32)(n + 1) * (a + 31u) + (o.sum.rs.s2 & ~(uint_fast16_t)0xffff);
    weaksum_t r = w;
    weaksum_rollout(&w, a);
    VP_ASSERT(weaksum_count(&w) == n && VP_EQ16(w.sum.rs.s1, t1) && VP_EQ16(w.sum.rs.s2, t2) && w.kind == RS_ROLLSUM, "rollout removes the oldest byte");
    weaksum_rotate(&r, a, b);
    VP_ASSERT(weaksum_count(&r) == n + 1 && VP_EQ16(r.sum.rs.s1, t1 + b + 31u) && VP_EQ16(r.sum.rs.s2, t2 + t1 + b + 31u) && r.kind == RS_ROLLSUM,
              "rotate removes the oldest byte and appends one");
    VP_REACH("end");
}
/* lemma: f(a.w) = (s1(w)+a+31, s2(w)+(|w|+1)(a+31)), by induction over w */
void h_rs_lemma(void)
{
    u8 a, b; u32 t1, t2, n;
    u32 f1 = 0 + a + 31u, f2 = 0 + f1;
    VP_ASSERT(VP_EQ16(f1, 0 + a + 31u) && VP_EQ16(f2, 0 + 1u * (a + 31u)), "lemma, base");
    u32 x1 = t1 + a + 31u, x2 = t2 + (n + 1) * (a + 31u);
    u32 y1 = x1 + b + 31u, y2 = x2 + y1, u1 = t1 + b + 31u, u2 = t2 + u1;
    VP_ASSERT(VP_EQ16(y1, u1 + a + 31u) && VP_EQ16(y2, u2 + (n + 2) * (a + 31u)), "lemma, step");
    VP_REACH("end");
}
/* lemma: 2*tri(g) = g(g+1) mod 2^17, by induction */
void h_tri(void)
{
    u32 t, g;
    VP_ASSUME(((2 * t) & 0x1ffff) == ((g * (g + 1)) & 0x1ffff));
    VP_ASSERT(((2 * (t + g + 1)) & 0x1ffff) == (((g + 1) * (g + 2)) & 0x1ffff), "triangular numbers, step");
    size_t n; u32 tn;
    VP_ASSUME((((uint64_t)2 * tn) & 0x1ffff) == ((n * (n + 1)) & 0x1ffff));
    VP_ASSERT(VP_EQ16(tn, (n * (n + 1)) / 2), "triangular numbers, conclusion");
    VP_REACH("end");
}
void h_rs_update(void)
{
    size_t n;
    VP_ASSUME(n <= VP_MAXB);
    u8 *buf = malloc(n);
    VP_ASSUME(buf != NULL);
    Rollsum s, o;
    o = s;
    gb = buf; gn = 0; glen = n; g1 = o.s1; g2 = o.s2;
    RollsumUpdate(&s, buf, n);
    VP_ASSERT(gn == n, "VPTOOL fold covers the buffer");
    VP_ASSERT(s.count == o.count + n, "update adds its length to the count");
    VP_ASSERT(VP_EQ16(s.s1, g1 + 31 * n), "update s1 is that of appending every byte");
    VP_ASSERT(VP_EQ16(s.s2, g2 + 31 * ((n * (n + 1)) / 2)), "update s2 is that of appending every byte");
    VP_REACH("end");
}
/* lemma: appending k bytes by the documented function gives (g1 + 31k, g2 + 31 tri(k))
 * where g is the fold without the offset; by induction over k.  With h_tri, that is
 * what h_rs_update shows of the code. */
void h_off(void)
{
    u8 b; uint64_t g1, g2, e1, e2, k, t;
    VP_ASSUME(e1 == g1 + 31 * k && e2 == g2 + 31 * t);
    g1 += b; g2 += g1; e1 += b + 31; e2 += e1; k++; t += k;
    VP_ASSERT(e1 == g1 + 31 * k && e2 == g2 + 31 * t, "offset lemma, step");
    VP_REACH("end");
}
/* ---- rabinkarp ---- */
void h_rk_init(void)
{
    weaksum_t w;
    weaksum_init(&w, RS_RABINKARP);
    VP_ASSERT(w.kind == RS_RABINKARP && weaksum_count(&w) == 0 && w.sum.rk.hash == 1 && w.sum.rk.mult == 1 && weaksum_digest(&w) == 1, "init represents the empty window");
    weaksum_t v; v.kind = RS_RABINKARP;
    weaksum_reset(&v);
    VP_ASSERT(v.kind == RS_RABINKARP && weaksum_count(&v) == 0 && v.sum.rk.hash == 1 && v.sum.rk.mult == 1, "reset represents the empty window");
    weaksum_t x; x.kind = RS_RABINKARP;
    VP_ASSERT(weaksum_digest(&x) == x.sum.rk.hash, "digest is the hash");
    VP_REACH("end");
}
void h_rk_rollin(void)
{
    weaksum_t w, o; u8 b;
    w.kind = RS_RABINKARP; o = w;
    weaksum_rollin(&w, b);
    VP_ASSERT(weaksum_count(&w) == weaksum_count(&o) + 1 && w.sum.rk.hash == o.sum.rk.hash * M + b && w.sum.rk.mult == o.sum.rk.mult * M, "rollin appends a byte");
    VP_REACH("end");
}
/* t = h(w), m = M^|w|; h(a.w) = t + m*(a+M-1) by the lemma below */
void h_rk_rollout(void)
{
    weaksum_t w; u8 a; u32 t, m; size_t n;
    w.kind = RS_RABINKARP;
    w.sum.rk.count = n + 1; w.sum.rk.mult = M * m; w.sum.rk.hash = t + m * (a + (M - 1u));
    weaksum_rollout(&w, a);
    VP_ASSERT(weaksum_count(&w) == n, "rollout count");
    VP_ASSERT(w.sum.rk.mult == m, "rollout keeps mult == M^count");
    VP_ASSERT(w.sum.rk.hash == t, "rollout removes the oldest byte");
    VP_REACH("end");
}
void h_rk_rotate(void)
{
    weaksum_t w; u8 a, b; u32 t, m; size_t n;
    w.kind = RS_RABINKARP;
    w.sum.rk.count = n + 1; w.sum.rk.mult = M * m; w.sum.rk.hash = t + m * (a + (M - 1u));
    weaksum_rotate(&w, a, b);
    VP_ASSERT(weaksum_count(&w) == n + 1 && w.sum.rk.mult == M * m, "rotate keeps count and mult");
    VP_ASSERT(w.sum.rk.hash == t * M + b, "rotate removes the oldest byte and appends one");
    VP_REACH("end");
}
void h_rk_lemma(void)
{
    u8 a, b; u32 t, m;
    VP_ASSERT(1u * M + a == 1u + 1u * (a + (M - 1u)), "lemma, base");
    u32 x = t + m * (a + (M - 1u));
    VP_ASSERT(x * M + b == (t * M + b) + (M * m) * (a + (M - 1u)), "lemma, step");
    VP_REACH("end");
}
void h_rk_pow(void)
{
    u32 n, q = M, p = 1;
    for (u32 x = n; x; x >>= 1) {       /* M^n as the product of M^(2^i) over the bits of n */
        if (x & 1) p *= q;
        q *= q;
    }
    q = M;
    for (int i = 0; i < 32; i++) q *= q;
    VP_ASSERT(q == 1, "M^(2^32) == 1, so a length may be reduced mod 2^32");
    VP_ASSERT(rabinkarp_pow(n) == p, "rabinkarp_pow is M^n");
    VP_REACH("end");
}
void h_rk_update(void)
{
    size_t n;
    VP_ASSUME(n <= VP_MAXB);
    u8 *buf = malloc(n);
    VP_ASSUME(buf != NULL);
    rabinkarp_t s, o;
    o = s;
    vp_cut[0] = vp_cut[1] = 0; gb = buf; gn = 0; glen = n; gh = o.hash;
    rabinkarp_update(&s, buf, n);
    VP_ASSERT(gn == n, "VPTOOL fold covers the buffer");
    VP_ASSERT(s.count == o.count + n, "update adds its length to the count");
    VP_ASSERT(s.hash == gh, "update hash is that of appending every byte");
    VP_REACH("end");
}
#ifdef VP_POW
/* mult after an update of n bytes; with h_rk_pow, M^count */
void h_rk_mult(void)
{
    size_t n;
    VP_ASSUME(n <= VP_MAXB);
    u8 *buf = malloc(n);
    VP_ASSUME(buf != NULL);
    rabinkarp_t s, o;
    o = s;
    vp_cut[0] = vp_cut[1] = 0; gb = buf; gn = 0; glen = n; gh = o.hash;
    rabinkarp_update(&s, buf, n);
    VP_ASSERT(s.mult == o.mult * __CPROVER_uninterpreted_pow((u32)n), "update multiplies mult by M^len");
    VP_REACH("end");
}
#endif
