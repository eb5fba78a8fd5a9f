/* Contracts on the signature generator (mksum.c) and the signature loader
 * (readsums.c), over the real tube.c, netint.c and rs_signature_init, written
 * from doc/formats.md.  The jobs are stepped through job->statefn, so how the
 * code divides the work into states does not matter. */
#define VP_SMALL 36
#include "vp.h"
#include "job.h"
#include "scoop.h"
#include "netint.h"
#include "sumset.h"
#include "util.h"
#include "l1.h"
#undef memcpy
#undef memmove
const int RS_MD4_SUM_LENGTH = 16, RS_BLAKE2_SUM_LENGTH = 32;   /* checked by h_lengths in u_sums.c */
static rs_signature_t SIG;
static void *vp_struct0(size_t n) { VP_ASSERT(n == sizeof SIG, "the signature object is allocated"); rs_signature_t z = {0}; SIG = z; return &SIG; }
void *rs_alloc_struct0(size_t n, char const *name) { return vp_struct0(n); }
/* allocation: any address; only its size matters here */
static size_t vp_asz; static int vp_an; static char vp_abuf[1];
void *rs_alloc(size_t n, char const *name) { vp_asz = n; vp_an++; return vp_abuf; }
void *rs_realloc(void *p, size_t n, char const *name) { vp_asz = n; vp_an++; return vp_abuf; }
int rs_long_ln2(rs_long_t v) { VP_ASSERT(0, "unknown size needs no ln2"); return 0; }
int rs_long_sqrt(rs_long_t v) { VP_ASSERT(0, "unknown size needs no sqrt"); return 0; }
hashtable_t *_hashtable_new(int size) { return NULL; }
void _hashtable_free(hashtable_t *t) { }
char const *rs_strerror(rs_result r) { return ""; }
void rs_hexify(char *to, void const *from, int n) { }
#define VP_SIZE_T_
static struct { int n, kind; const void *buf; size_t len; rs_weak_sum_t v; } WK;
static struct { int n, kind; const void *buf; size_t len; rs_strong_sum_t v; } ST;
rs_weak_sum_t rs_calc_weak_sum(weaksum_kind_t kind, void const *buf, size_t len)
{
    rs_weak_sum_t v;
    WK.n++; WK.kind = kind; WK.buf = buf; WK.len = len; WK.v = v;
    return v;
}
void rs_calc_strong_sum(strongsum_kind_t kind, void const *buf, size_t len, rs_strong_sum_t *sum)
{
    rs_strong_sum_t v;
    ST.n++; ST.kind = kind; ST.buf = buf; ST.len = len;
    for (int i = 0; i < 32; i++) ST.v[i] = (*sum)[i] = v[i];
}
#define memcpy(d, s, n) vp_smallcpy((d), (s), (n))
#define memmove(d, s, n) vp_smallcpy((d), (s), (n))
#include "tube.c"
#include "netint.c"
#include "sumset.c"
static rs_job_t J;
static rs_buffers_t S;
rs_job_t *rs_job_new(char const *n, rs_result (*fn)(rs_job_t *))
{
    rs_job_t z = {0};
    J = z;
    J.dogtag = RS_JOB_TAG;
    J.stream = &S;
    J.statefn = fn;
    return &J;
}
static u8 be4(unsigned v, int i) { return v >> (8 * (3 - i)); }

#ifdef VP_MKSUM
#include "mksum.c"
#define WQ(o) (job->write_buf[o])
#define IS4(o, v) (WQ(o) == be4(v, 0) && WQ((o) + 1) == be4(v, 1) && WQ((o) + 2) == be4(v, 2) && WQ((o) + 3) == be4(v, 3))
/* the magics, by the format documentation */
static _Bool m_known(unsigned m) { return m == 0x72730136 || m == 0x72730137 || m == 0x72730146 || m == 0x72730147; }
static int m_rk(unsigned m) { return m == 0x72730146 || m == 0x72730147; }
static int m_md4(unsigned m) { return m == 0x72730136 || m == 0x72730146; }

/* header, then one arbitrary block of the file */
void h_mksum(void)
{
    size_t bl, sl, n; rs_magic_number magic; rs_buffers_t s0; S = s0;
    VP_ASSUME(bl <= INT_MAX && (sl <= INT_MAX || sl == (size_t)-1));
    rs_job_t *job = rs_sig_begin(bl, sl, magic);
    unsigned m = magic ? magic : 0x72730147;
    size_t B = bl ? bl : 2048, mx = m_md4(m) ? 16 : 32, L = sl == 0 ? mx : sl == (size_t)-1 ? (mx < 12 ? mx : 12) : sl;
    rs_result r = job->statefn(job);
    if (!m_known(m)) {
        VP_ASSERT(r == RS_BAD_MAGIC && !job->write_len, "signature: unknown format is refused");
        return;
    }
    if (L > mx) {
        VP_ASSERT(r == RS_PARAM_ERROR && !job->write_len, "signature: too long a strong sum is refused");
        return;
    }
    VP_ASSERT(r == RS_RUNNING && job->write_len == 12 && !job->copy_len, "signature: the header is 12 bytes");
    VP_ASSERT(IS4(0, m) && IS4(4, B) && IS4(8, L), "signature: header is magic, block length, strong-sum length");
    VP_ASSERT(job->stats.block_len == B && job->stats.sig_blocks == 0, "signature: block length is counted");
    VP_ASSERT(!WK.n && !ST.n, "signature: no block in the header");
    /* every queued byte is delivered before the next step (rs_job_work) */
    rs_byte_t q[36]; for (int i = 0; i < 36; i++) job->write_buf[i] = q[i];
    job->write_len = 0;
    rs_long_t k; VP_ASSUME(k >= 0 && k < INT_MAX); job->stats.sig_blocks = k;       /* any earlier number of blocks */
    vp_input(job, n);
    rs_result (*fn)(rs_job_t *) = job->statefn;
    r = job->statefn(job);
    size_t len = n >= B ? B : S.eof_in ? n : 0;
    if (n < B && !S.eof_in) {
        VP_ASSERT(r == RS_BLOCKED && vp_pos == 0 && !job->write_len && S.avail_in == 0, "signature: an incomplete block waits for more input");
    } else if (!len) {
        VP_ASSERT(r == RS_DONE && !job->write_len && !WK.n && !ST.n, "signature: ends at the end of the file, no empty block");
        VP_ASSERT(job->stats.sig_blocks == k, "signature: no block counted at the end");
    } else {
        VP_ASSERT(r == RS_RUNNING && vp_pos == len && job->statefn == fn, "signature: exactly one block is consumed");
        VP_ASSERT(job->write_len == 4 + L && !job->copy_len, "signature: a block takes 4 + strong-sum-length bytes");
        VP_ASSERT(WK.n == 1 && WK.kind == (m_rk(m) ? RS_RABINKARP : RS_ROLLSUM) && WK.buf == vp_in && WK.len == len, "signature: weak sum, of the named kind, of exactly the block");
        VP_ASSERT(ST.n == 1 && ST.kind == (m_md4(m) ? RS_MD4 : RS_BLAKE2) && ST.buf == vp_in && ST.len == len, "signature: strong sum, of the named kind, of exactly the block");
        VP_ASSERT(IS4(0, WK.v), "signature: weak sum big-endian");
        size_t g; VP_ASSUME(g < L);
        VP_ASSERT(WQ(4 + g) == ST.v[g], "signature: first bytes of the strong sum");
        VP_ASSERT(job->stats.sig_blocks == k + 1, "signature: block is counted");
        VP_REACH("block");
    }
}
#endif

#ifdef VP_LOAD
static struct { int n; rs_signature_t *sig; rs_weak_sum_t w; const u8 *s; } AB;
#define rs_signature_add_block vp_add_block
rs_block_sig_t *vp_add_block(rs_signature_t *sig, rs_weak_sum_t w, rs_strong_sum_t *s)
{
    AB.n++; AB.sig = sig; AB.w = w; AB.s = (const u8 *)s;
    return NULL;
}
#include "readsums.c"
static unsigned ne4(const u8 *p) { return (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static _Bool m_known(unsigned m) { return m == 0x72730136 || m == 0x72730137 || m == 0x72730146 || m == 0x72730147; }
static int m_md4(unsigned m) { return m == 0x72730136 || m == 0x72730146; }

/* header, arriving in two arbitrary parts */
void h_loadhdr(void)
{
    rs_buffers_t s0; S = s0; S.avail_out = 0;
    rs_signature_t *sp = NULL;
    rs_job_t *job = rs_loadsig_begin(&sp);
    rs_long_t fs; size_t n, n1; u8 B[16];
    VP_ASSERT(sp == job->signature && sp, "loadsig: the signature is handed out");
    VP_ASSUME(fs >= -1 && fs < 12);      /* larger sizes: h_siginit */
    job->sig_fsize = fs;
    VP_ASSUME(n <= VP_MAXB && n1 <= n);
    int eof1 = S.eof_in;
    vp_in = B; vp_pos = 0;
    unsigned m = ne4(B); int bl = (int)ne4(B + 4), sl = (int)ne4(B + 8);
    int mx = m_md4(m) ? 16 : 32;
    rs_result r = RS_RUNNING;
    for (int part = 0; part < 2; part++) {
        vp_end = part ? n : n1; S.eof_in = part || n1 == n ? eof1 : 0; vp_split(job, 0);
        for (int i = 0; i < 4 && r == RS_RUNNING && vp_pos < 12; i++)
            r = job->statefn(job);
        if (r == RS_BLOCKED && !part) {
            VP_ASSERT(n1 < 12 && S.avail_in == 0 && !eof1 | n1 < n, "loadsig header: blocks only for want of input");
            r = RS_RUNNING;
        }
    }
    _Bool e_c = n >= 8 && bl < 1 || n >= 12 && (sl < 1 || sl > 32), e_m = n >= 4 && !m_known(m), e_p = n >= 12 && m_known(m) && sl > mx;
    if (n < 12) {
        VP_ASSERT(r == (eof1 ? RS_INPUT_ENDED : RS_BLOCKED) || e_c && r == RS_CORRUPT || e_m && r == RS_BAD_MAGIC, "loadsig header: a short header is not accepted");
    } else if (e_c || e_m || e_p) {
        VP_ASSERT(e_c && r == RS_CORRUPT || e_m && r == RS_BAD_MAGIC || e_p && r == RS_PARAM_ERROR, "loadsig header: a malformed header is rejected with the matching error");
    } else {
        VP_ASSERT(r == RS_RUNNING && vp_pos == 12, "loadsig header: a good header is accepted");
        VP_ASSERT((unsigned)sp->magic == m && sp->block_len == bl && sp->strong_sum_len == sl && sp->count == 0, "loadsig header: the parameters are those in the stream");
        VP_ASSERT(job->stats.block_len == (size_t)bl && job->stats.sig_blocks == 0, "loadsig header: block length counted");
        VP_ASSERT(sp->size == 0 && !sp->block_sigs, "loadsig header: no room needed yet");
        VP_ASSERT(!AB.n && !sp->hashtable, "loadsig header: no block yet");
        VP_REACH("good");
    }
}

/* the step function that follows a complete header */
static rs_job_t *after_header(rs_signature_t **sp)
{
    rs_job_t *job = rs_loadsig_begin(sp);
    u8 B[16]; vp_in = B; vp_pos = 0; vp_end = 12; S.eof_in = 0; vp_split(job, 0);
    unsigned m = ne4(B);
    VP_ASSUME(m_known(m) && (int)ne4(B + 4) >= 1 && (int)ne4(B + 8) >= 1 && (int)ne4(B + 8) <= (m_md4(m) ? 16 : 32));
    for (int i = 0; i < 4 && vp_pos < 12; i++)
        job->statefn(job);
    return job;
}
/* one block, arriving in two arbitrary parts */
void h_loadblk(void)
{
    rs_buffers_t s0; S = s0; S.avail_out = 0;
    rs_signature_t *sp = NULL;
    rs_job_t *job = after_header(&sp);
    VP_ASSUME(vp_pos == 12 && job->statefn);
    rs_result (*fn)(rs_job_t *) = job->statefn;
    int L = sp->strong_sum_len;
    int c; rs_long_t k; VP_ASSUME(c >= 0 && k >= 0 && k < INT_MAX);
    job->stats.sig_blocks = k;
    size_t n, n1; u8 B[40]; int eof1;
    VP_ASSUME(n <= VP_MAXB && n1 <= n);
    vp_in = B; vp_pos = 0; AB.n = 0;
    rs_result r = RS_RUNNING;
    for (int part = 0; part < 2; part++) {
        vp_end = part ? n : n1; S.eof_in = part || n1 == n ? eof1 : 0; vp_split(job, 0);
        for (int i = 0; i < 3 && r == RS_RUNNING && !AB.n; i++)
            r = job->statefn(job);
        if (r == RS_BLOCKED && !part) {
            VP_ASSERT(n1 < 4 + (size_t)L && S.avail_in == 0 && !AB.n, "loadsig block: blocks only for want of input");
            r = RS_RUNNING;
        }
        if (AB.n || r != RS_RUNNING) break;
    }
    if (n >= 4 + (size_t)L) {
        VP_ASSERT(AB.n == 1 && AB.sig == sp && AB.w == ne4(B) && AB.s == B + 4 && vp_pos == 4 + (size_t)L, "loadsig block: exactly the next block's sums are added");
        VP_ASSERT(r == RS_RUNNING && job->statefn == fn && job->stats.sig_blocks == k + 1, "loadsig block: then the next block, counted once");
        VP_REACH("block");
    } else {
        VP_ASSERT(!AB.n && job->stats.sig_blocks == k, "loadsig block: an incomplete block is not added");
        VP_ASSERT(r == (!eof1 ? RS_BLOCKED : n == 0 ? RS_DONE : RS_INPUT_ENDED), "loadsig block: the stream may end only between blocks");
    }
}
#endif

#ifdef VP_INIT
/* preallocation: whatever the announced size, there is room for size blocks */
void h_siginit(void)
{
    rs_signature_t g; SIG = g;
    unsigned m; size_t bl, sl; rs_long_t fs;
    VP_ASSUME(m == 0x72730136 || m == 0x72730137 || m == 0x72730146 || m == 0x72730147);
    VP_ASSUME(bl >= 1 && bl <= INT_MAX && sl >= 1 && sl <= ((m & 15) == 6 ? 16 : 32));
#ifdef VP_L
    VP_ASSUME(sl == VP_L);
#endif
    VP_ASSUME(fs >= -1 && fs < (rs_long_t)INT_MAX * 4);
    rs_result r = rs_signature_init(&SIG, m, bl, sl, fs);
    VP_ASSERT(r == RS_DONE && SIG.count == 0 && SIG.size >= 0 && !SIG.hashtable, "signature_init: empty");
    VP_ASSERT(SIG.magic == (int)m && SIG.block_len == (int)bl && SIG.strong_sum_len == (int)sl, "signature_init: the parameters given");
    VP_ASSERT(SIG.size == 0 ? SIG.block_sigs == NULL : vp_an == 1 && vp_asz >= (size_t)SIG.size * (4 + ((sl + 3) & ~(size_t)3)) && SIG.block_sigs == vp_abuf, "signature_init: room for size blocks");
    VP_REACH("end");
}
#endif
