/* Signature parameters: integer square root and logarithm, and rs_sig_args. */
#include "vp.h"
#include "sumset.h"
#include "trace.h"

#ifdef VP_UTIL
#include "util.h"
/* ---- rs_long_sqrt(v) is the r with r*r <= v < (r+1)*(r+1) ----
 * vp_r is that r.  What is used about it is that m*m > v exactly when m > r, for
 * 0 <= m <= 2^31 (lemma square.smt2, over the integers; m*m does not overflow),
 * at the m the loop tries and at powers of two. */
rs_long_t vp_v, vp_r;
#define SQ_M (n | b)
#define SQ_BEGIN VP_CUT(0, b >= 1 && b <= 1LL << 30 && (b & (b - 1)) == 0 && (n & (2 * b - 1)) == 0 && 0 <= n && n <= vp_r && vp_r < n + 2 * b, b, \
                        VP_HV(n); VP_HV(b)) VP_ASSUME((SQ_M * SQ_M > vp_v) == (SQ_M > vp_r));
#include "util.c"
void h_sqrt(void)
{
    rs_long_t v, r;
    VP_ASSUME(v >= 0 && v < (1LL << 62));
    VP_ASSUME(r >= 0 && r < (1LL << 31));
    vp_v = v; vp_r = r;
    for (int k = 0; k < 31; k++)
        VP_ASSUME((1LL << 2 * k > v) == (1LL << k > r));
    VP_ASSERT(rs_long_sqrt(v) == r, "rs_long_sqrt is the integer square root");
    VP_REACH("end");
}
void h_ln2(void)
{
    rs_long_t v;
    VP_ASSUME(v >= 1);
    int n = rs_long_ln2(v);
    VP_ASSERT(n >= 0 && n < 63 && (v >> n) == 1, "rs_long_ln2 is the position of the highest bit");
    VP_REACH("end");
}
#else
/* A query per group of assertions: together they are hard for the solver. */
#ifdef VP_MIN
#define A(c, m)
#else
#define A(c, m) VP_ASSERT(c, m)
#endif
/* ---- rs_sig_args, over the contracts of the two above ---- */
rs_long_t FS, ROOT;
size_t *BL;
int rs_long_sqrt(rs_long_t v) { A(v == FS, "square root of the file size"); return (int)ROOT; }
int __CPROVER_uninterpreted_ln2(uint64_t);
int rs_long_ln2(rs_long_t v)
{
    if (v == (rs_long_t)((uint64_t)FS / *BL + 1))
        VP_ASSUME(v >= 1);              /* a quotient of a number below 2^62 does not exceed it */
    A(v >= 1, "logarithm of a positive number");
    int n = __CPROVER_uninterpreted_ln2((uint64_t)v);
    VP_ASSUME(n >= 0 && n < 63);
    return n;
}
char const *rs_strerror(rs_result r) { return ""; }
void rs_hexify(char *to, void const *from, int n) { }
void rs_bzero(void *b, size_t n) { }
void *rs_alloc(size_t n, char const *name) { return malloc(n); }
void *rs_realloc(void *p, size_t n, char const *name) { return realloc(p, n); }
void *rs_alloc_struct0(size_t n, char const *name) { return malloc(n); }
hashtable_t *_hashtable_new(int size) { return 0; }
void _hashtable_free(hashtable_t *t) { }
void rs_calc_strong_sum(strongsum_kind_t kind, void const *buf, size_t len, rs_strong_sum_t *sum) { }
const int RS_MD4_SUM_LENGTH = 16, RS_BLAKE2_SUM_LENGTH = 32;
#include "sumset.c"
static void args(rs_long_t fs, rs_magic_number m0, size_t b0, size_t s0)
{
    rs_magic_number m; size_t b, s;
    VP_ASSUME(fs < (1LL << 62));
    FS = fs; BL = &b;
    rs_long_t root; ROOT = root;
    VP_ASSUME(ROOT >= 256 && ROOT < (1LL << 31));       /* root of anything over 65536 */
    m = m0; b = b0; s = s0;
    rs_result r = rs_sig_args(fs, &m, &b, &s);
    rs_magic_number em = m0 ? m0 : RS_RK_BLAKE2_SIG_MAGIC;
    int blake = em == RS_BLAKE2_SIG_MAGIC || em == RS_RK_BLAKE2_SIG_MAGIC, md4 = em == RS_MD4_SIG_MAGIC || em == RS_RK_MD4_SIG_MAGIC;
    size_t max = blake ? 32 : 16;
    size_t eb = b0 ? b0 : fs < 0 ? 2048 : fs <= 65536 ? 256 : (size_t)(ROOT / 128 * 128);
    if (!blake && !md4)
        A(r == RS_BAD_MAGIC, "an unknown format is RS_BAD_MAGIC");
    else if (b0 > INT_MAX)
        A(r == RS_PARAM_ERROR, "a block length that does not fit is refused");
    else if (s0 != 0 && s0 != (size_t)-1 && s0 > max)
        A(r == RS_PARAM_ERROR, "a strong length over the hash's maximum is RS_PARAM_ERROR");
    else {
        A(r == RS_DONE, "everything else is accepted");
        A(m == em, "format kept, or defaulted to Rabin-Karp + BLAKE2");
        A(b == eb, "block length kept, or the recommended one");
        A(b >= 1 && b <= INT_MAX && s >= 1 && s <= max, "accepted parameters start a signature");
        if (s0 == 0)
            A(s == max, "strong length 0 is the maximum");
        else if (s0 == (size_t)-1) {
#ifdef VP_MIN
            size_t min = 12;
            if (fs >= 0) {
                int l1 = __CPROVER_uninterpreted_ln2((uint64_t)fs + (1 << 24)), l2 = __CPROVER_uninterpreted_ln2((uint64_t)fs / b + 1);
                min = 2 + (size_t)((l1 + l2 + 7) / 8);
            }
            VP_ASSERT(s == (min > max ? max : min), "strong length -1 is the documented minimum");
#endif
        } else
            A(s == s0, "an explicit strong length is kept");
    }
}
void h_args(void)
{
    rs_long_t fs; rs_magic_number m; size_t b, s;
    args(fs, m, b, s);
}
/* the cases are not vacuous (apart, as a model of a symbolic division is hard to find) */
void h_args_reach(void)
{
    rs_magic_number m; size_t s;
    args(1000000, m, 0, s);
    VP_REACH("end");
}
#endif
