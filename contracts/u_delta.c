/* Contracts on the delta generator (delta.c): one call of a state function from
 * an arbitrary reachable state, over contract stand-ins for the readahead buffer,
 * output queue, emitter, rolling sum window and block lookup.
 *
 * Ghost view.  Positions are absolute offsets in the new file.  The job's pending
 * input starts at vp_pos and vp_end bytes have been supplied so far.  cov = bytes
 * described by the commands emitted so far.  A = vp_pos + copy_len + scan_pos is
 * the scan position; everything before it is either described by emitted commands
 * or by the pending match (basis_pos, basis_len), or is the pending miss.
 *
 * W is an arbitrary offset of the new file.  wm: a lookup reported a match for a
 * window covering W, mapping it to basis offset WX.  ws: a lookup at exactly W
 * with the longest window available failed. */
#include "vp.h"
#include "job.h"
#include "scoop.h"
#include "sumset.h"
#include "checksum.h"
#include "emit.h"
#include "l1.h"
char const *rs_strerror(rs_result r) { return ""; }

static rs_job_t J;
static rs_buffers_t S;
static rs_signature_t SG;
static rs_long_t cov;           /* described by emitted commands */
static rs_long_t W, WX;
static _Bool wm, ws, wdone;
static long long lit_due;       /* literal bytes announced, not yet queued for copying */
static int nlit, ncopy, nend, nhdr;
static _Bool emitted;           /* a command was queued in this call */
static _Bool FINAL;             /* the input supplied so far is all there is */

/* ---- output queue: contracts proved in u_tube.c, u_emit.c ---- */
#define ROOM(n) VP_ASSERT(job->copy_len == 0 && job->write_len + (n) <= sizeof(job->write_buf), "output queue has room for the command")
static int qlen(void) { int l; VP_ASSUME(l >= 1 && l <= 17); return l; }
void rs_emit_delta_header(rs_job_t *job) { ROOM(4); job->write_len += 4; nhdr++; }
void rs_emit_end_cmd(rs_job_t *job)
{
    ROOM(1);
    VP_ASSERT(lit_due == 0, "literal data follows its command");
    job->write_len++;
    nend++;
}
void rs_emit_literal_cmd(rs_job_t *job, int len)
{
    ROOM(9);
    VP_ASSERT(len > 0 && lit_due == 0, "literal commands are not empty");
    VP_ASSERT(cov == (rs_long_t)vp_pos, "literal data starts where the last command ended");
    if (cov <= W && W < cov + len) {
        VP_ASSERT(!wdone, "every byte is described once");
        VP_ASSERT(!wm, "a matched byte is not sent as literal data");
        VP_ASSERT(ws || !job->signature, "a literal byte was looked up first");
        wdone = 1;
    }
    lit_due = len;
    cov += len;
    job->write_len += qlen();
    nlit++; emitted = 1;
}
void rs_emit_copy_cmd(rs_job_t *job, rs_long_t pos, rs_long_t len)
{
    ROOM(17);
    VP_ASSERT(pos >= 0 && len > 0 && lit_due == 0, "copy commands are not empty");
    if (cov <= W && W < cov + len) {
        VP_ASSERT(!wdone, "every byte is described once");
        VP_ASSERT(wm && WX == pos + (W - cov), "a byte is copied from the place its block was matched");
        wdone = 1;
    }
    cov += len;
    job->write_len += qlen();
    ncopy++; emitted = 1;
}
void rs_tube_copy(rs_job_t *job, size_t len)
{
    VP_ASSERT(job->copy_len == 0 && (long long)len == lit_due, "literal data of exactly the announced length");
    lit_due = 0;
    job->copy_len = len;
}
void rs_tube_write(rs_job_t *job, void const *buf, size_t len) { VP_ASSERT(0, "unused"); }
int rs_tube_is_idle(rs_job_t const *job) { return job->write_len == 0 && job->copy_len == 0; }
static _Bool outblk;            /* output was blocked in this call */
rs_result rs_tube_catchup(rs_job_t *job)
{
    size_t w, c;
    VP_ASSUME(w <= job->write_len && c <= job->copy_len && (w == 0 || c == 0));
    VP_ASSERT(job->copy_len <= vp_end - vp_pos, "data to be copied is pending input");
    VP_VIEW_OK(job);
    if (job->copy_len != c) vp_consume(job, job->copy_len - c);
    job->write_len = w;
    job->copy_len = c;
    if (w || c) {
        outblk = 1;
        return RS_BLOCKED;
    }
    return RS_DONE;
}
/* ---- rolling sum window [wst, wst + wc): contracts proved in u_weak.c ---- */
static size_t wst;
static size_t abs_of(const u8 *p) { VP_ASSERT(__CPROVER_same_object(p, vp_in), "scan buffer is the pending input"); return __CPROVER_POINTER_OFFSET(p); }
static size_t wcnt;
#define WC wcnt
static void g_reset(weaksum_t *w) { WC = 0; }
static size_t g_count(weaksum_t *w) { return WC; }
static void g_update(weaksum_t *w, const u8 *buf, size_t len)
{
    if (WC == 0) wst = abs_of(buf);
    VP_ASSERT(wst + WC == abs_of(buf) && wst + WC + len <= vp_end, "rolling sum: update extends the window");
    WC += len;
}
static void g_rotate(weaksum_t *w, u8 out, u8 in)
{
    VP_ASSERT(WC > 0 && wst + WC < vp_end && out == vp_in[wst] && in == vp_in[wst + WC], "rolling sum: rotate moves the window by one");
    wst++;
}
static void g_rollin(weaksum_t *w, u8 in)
{
    VP_ASSERT(wst + WC < vp_end && in == vp_in[wst + WC], "rolling sum: roll in extends the window by one");
    WC++;
}
static void g_rollout(weaksum_t *w, u8 out)
{
    VP_ASSERT(WC > 0 && out == vp_in[wst], "rolling sum: roll out shortens the window by one");
    wst++;
    WC--;
}
static rs_weak_sum_t lastdig;
static rs_weak_sum_t g_digest(weaksum_t *w) { rs_weak_sum_t d; lastdig = d; return d; }
static int wkind = -1;
static void g_init(weaksum_t *w, int kind) { wkind = kind; w->kind = kind; WC = 0; }
#define weaksum_init g_init
#define weaksum_reset g_reset
#define weaksum_count g_count
#define weaksum_update g_update
#define weaksum_rotate g_rotate
#define weaksum_rollin g_rollin
#define weaksum_rollout g_rollout
#define weaksum_digest g_digest
/* ---- block lookup: contract proved in u_sumset.c ---- */
static int nfind;
rs_long_t rs_signature_find_match(rs_signature_t *sig, rs_weak_sum_t weak, void const *buf, size_t len)
{
    rs_long_t r;
    size_t a = abs_of(buf);
    VP_ASSERT(sig == &SG && len > 0 && a + len <= vp_end, "lookup of pending input");
    VP_ASSERT(weak == lastdig && a == wst && len == WC, "lookup uses the rolling sum of exactly the data looked up");
    VP_ASSERT(len <= (size_t)SG.block_len, "lookup of at most a block");
    VP_ASSERT(a == vp_pos + J.scan_pos, "lookup at the scan position");
    VP_ASSERT(len == (size_t)SG.block_len || FINAL && a + len == vp_end, "a shorter lookup only at the end of the file");
    nfind++;
    VP_ASSUME(r >= -1 && r <= ((rs_long_t)1 << 60));
    if (r == -1) { if ((rs_long_t)a == W) ws = 1; }
    else if ((rs_long_t)a <= W && W < (rs_long_t)(a + len)) { wm = 1; WX = r + (W - (rs_long_t)a); }
    return r;
}
static rs_job_t *NJ;
rs_job_t *rs_job_new(char const *n, rs_result (*fn)(rs_job_t *)) { rs_job_t z = {0}; J = z; J.dogtag = RS_JOB_TAG; J.statefn = fn; return &J; }

/* ---- the state of a delta job between commands ---- */
#define B ((size_t)SG.block_len)
static rs_long_t apos(void) { return (rs_long_t)(vp_pos + J.copy_len + J.scan_pos); }
/* where the job is */
#define I_POS (J.copy_len <= vp_end - vp_pos && J.basis_len >= 0 && J.basis_pos >= 0 && lit_due == 0 && (rs_long_t)vp_pos >= 0 && apos() <= (rs_long_t)vp_end && J.copy_len + J.scan_pos <= vp_end - vp_pos)
#define I_COV (cov >= 0 && cov <= apos() && (J.basis_len ? apos() == cov + J.basis_len : cov == (rs_long_t)(vp_pos + J.copy_len)))
/* the rolling sum, if any, is of data from the scan position on */
#define I_SUM (WC <= B && (WC == 0 || (rs_long_t)wst == apos() && wst + WC <= vp_end && (WC == B || FINAL && wst + WC == vp_end)))
/* a pending miss is at most one literal command; a pending match is processed or one block */
#define I_PEND (J.basis_len ? J.scan_pos <= B : J.scan_pos < MAX_DELTA_CMD)
/* what W stands for */
#define I_W (wdone == (W < cov) && (cov <= W && W < apos() ? (J.basis_len ? wm && WX == J.basis_pos + (W - cov) : ws && !wm) : 1) && (W >= apos() ? !wm && !ws : 1))
static _Bool inv0(void) { return I_POS && I_COV && I_SUM && I_PEND && I_W; }
#define CHECK_INV(what) do { VP_ASSERT(I_POS, what ": position"); VP_ASSERT(I_COV, what ": commands and pending data cover everything scanned"); \
   VP_ASSERT(I_SUM, what ": rolling sum of the data at the scan position"); VP_ASSERT(I_PEND, what ": pending data bounded"); \
   VP_ASSERT(I_W, what ": every byte so far is described once, matched bytes as copies of the place matched, others looked up and literal"); } while (0)
static void any_ghost(void)
{
    size_t p, sp, cl, wl, st, wc; rs_long_t bp, bl, c, x; _Bool m, s, d, em; rs_weak_sum_t dg;
    VP_ASSUME(p <= vp_end);
    vp_pos = p;
    J.scan_pos = sp; J.copy_len = cl; J.write_len = wl; J.basis_pos = bp; J.basis_len = bl;
    VP_ASSUME(sp <= vp_end - p && cl <= vp_end - p && wl <= 17 && bl >= 0 && bl <= (rs_long_t)vp_end && bp >= 0 && bp <= (rs_long_t)1 << 60);
    wst = st; wcnt = wc; cov = c; WX = x; wm = m; ws = s; wdone = d; emitted = em; lit_due = 0; lastdig = dg;
    vp_split(&J, 0);
}
/* the loops over the scan buffer: the queue is empty and the scan buffer is the pending input */
#define I_BUF (J.copy_len == 0 && J.write_len == 0 && J.scan_buf == vp_in + vp_pos && J.scan_len == vp_end - vp_pos \
    && J.scoop_avail + S.avail_in == vp_end - vp_pos && (J.scoop_avail ? J.scoop_avail >= J.scan_len : 1) && J.statefn == ST0 && apos() >= A0 && S.avail_in <= in0)
/* nothing sent or consumed in this call: only misses were added to a pending miss */
#define PROG (emitted || q0 || S.avail_in == 0 || S.avail_in < in0)
#define I_PROG (PROG || S.eof_in || (J.basis_len ? J.scan_pos == s0 : 1) && J.scan_len >= ml0)
static rs_result (*ST0)(rs_job_t *);
static size_t in0, q0, s0, ml0;
#define LOOP_INV (inv0() && I_BUF && I_PROG)
#define LOOP_CHECK(what) CHECK_INV(what); VP_ASSERT(I_BUF, what ": scan buffer is the pending input"); VP_ASSERT(I_PROG, what ": progress")
#define SCAN_BEGIN(id) if (!vp_cut[id]) { LOOP_CHECK("loop invariant on entry"); \
      any_ghost(); VP_ASSUME(J.copy_len == 0 && J.write_len == 0 && (J.scoop_avail ? S.avail_in == 0 : 1)); \
      J.scan_buf = vp_in + vp_pos; J.scan_len = vp_end - vp_pos; \
      VP_ASSUME(LOOP_INV && (COND##id)); vp_cut[id] = 1; vp_meas[id] = vp_end - apos(); } \
    else { LOOP_CHECK("loop invariant is kept"); VP_ASSERT((long long)vp_end - apos() < vp_meas[id], "loop invariant: measure decreases"); VP_ASSUME(0); }
#define COND0 (J.scan_pos + B < J.scan_len)
#define COND1 (J.scan_pos < J.scan_len)
static rs_long_t A0;
#include "delta.c"

static _Bool kmagic(int m) { return m == 0x72730136 || m == 0x72730137 || m == 0x72730146 || m == 0x72730147; }
/* up to the scanning state, with the documented start of a delta */
static rs_job_t *begin(void)
{
    rs_signature_t g; SG = g;
    static hashtable_t ht;
    SG.hashtable = &ht;
    VP_ASSUME(kmagic(SG.magic) && SG.block_len >= 1);
    SG.count = 1;               /* any non-empty signature, see below */
    rs_job_t *job = rs_delta_begin(&SG);
    VP_ASSERT(job->signature == &SG && wkind == ((SG.magic & 0xf0) == 0x30 ? RS_ROLLSUM : RS_RABINKARP), "delta: uses the signature and its weak sum");
    int cnt; VP_ASSUME(cnt >= 1); SG.count = cnt;
    J.stream = &S;
    rs_buffers_t s0; S = s0;
    size_t n; VP_ASSUME(n <= VP_MAXB);
    vp_in = malloc(n); VP_ASSUME(vp_in != NULL);
    vp_end = 0; vp_pos = 0; cov = 0; vp_split(&J, 0);
    rs_result r = J.statefn(&J);
    VP_ASSERT(r == RS_RUNNING && nhdr == 1 && J.write_len == 4 && vp_pos == 0, "delta: starts with its magic");
    J.write_len = 0;
    rs_long_t w; W = w; VP_ASSUME(w >= 0);
    VP_ASSERT(inv0(), "delta: the state before any data");
    vp_end = n;
    return job;
}
static int start_flush(void)
{   /* an empty file goes straight to the flushing state */
    size_t n = vp_end;
    vp_end = 0; vp_split(&J, 0); S.eof_in = 1; ST0 = J.statefn;
    rs_result r = J.statefn(&J);
    vp_end = n;
    return r == RS_RUNNING && J.statefn != ST0;
}
#define START A0 = apos(); in0 = S.avail_in; q0 = J.write_len + J.copy_len; s0 = J.scan_pos; emitted = 0; ml0 = s0 + B + 1 > MAX_DELTA_CMD + B ? s0 + B + 1 : MAX_DELTA_CMD + B
void h_scan(void)
{
    begin();
    any_ghost();
    FINAL = S.eof_in;
    ST0 = J.statefn;
    VP_ASSUME(inv0());
    START;
    rs_result r = J.statefn(&J);
    CHECK_INV("scan");
    VP_ASSERT(nend == 0, "scan: no end command yet");
    VP_ASSERT(r == RS_RUNNING || r == RS_BLOCKED, "scan: no other result");
    if (r == RS_RUNNING) {
        VP_ASSERT(S.eof_in && J.statefn != ST0 && J.write_len == 0 && J.copy_len == 0, "scan: goes on to the rest only at the end of the input");
        VP_ASSERT(vp_end - vp_pos <= J.scan_pos + B, "scan: leaves at most a block for the rest");
    } else {
        VP_ASSERT(J.statefn == ST0, "scan: same state when blocked");
        VP_ASSERT(J.write_len || J.copy_len || !S.eof_in && PROG, "scan: blocks only for output space or more input, never without having sent or consumed something");
    }
    VP_REACH("end");
}
void h_flush(void)
{
    begin();
    VP_ASSERT(start_flush(), "delta: an empty input goes on to the rest");
    any_ghost();
    S.eof_in = 1; FINAL = 1;
    outblk = 0;
    ST0 = J.statefn;
    VP_ASSUME(inv0() && apos() + (rs_long_t)B >= (rs_long_t)vp_end);
    START;
    rs_result r = J.statefn(&J);
    VP_ASSERT(nend == 0, "flush: no end command yet");
    CHECK_INV("flush");
    VP_ASSERT(r == RS_RUNNING || r == RS_BLOCKED, "flush: no other result");
    VP_ASSERT(r == RS_RUNNING ? J.statefn != ST0 : J.write_len || J.copy_len, "flush: blocks only for output space");
    if (J.statefn != ST0) {
        VP_ASSERT(cov == (rs_long_t)vp_end && J.basis_len == 0 && J.scan_pos == 0, "flush: ends when the whole file is described");
        VP_ASSERT(W < (rs_long_t)vp_end ? wdone : 1, "flush: every byte is described");
        /* the rest is delivered, then the end command */
        vp_pos += J.copy_len; J.copy_len = 0; J.write_len = 0; vp_split(&J, 0);
        r = J.statefn(&J);
        VP_ASSERT(r == RS_DONE && nend == 1 && J.write_len == 1 && J.copy_len == 0, "delta: ends with the end command");
        VP_REACH("end");
    }
}
/* without a signature: literal data only */
void h_slack(void)
{
    rs_signature_t g; SG = g; _Bool f; SG.count = 0;
    rs_job_t *job = rs_delta_begin(f ? &SG : NULL);
    J.stream = &S;
    rs_buffers_t s0; S = s0;
    size_t n, p; VP_ASSUME(n <= VP_MAXB && p <= n);
    vp_in = malloc(n); VP_ASSUME(vp_in != NULL);
    vp_pos = vp_end = 0; vp_split(&J, 0);
    rs_result r = J.statefn(&J);
    VP_ASSERT(r == RS_RUNNING && nhdr == 1 && J.write_len == 4 && !J.signature, "slack delta: starts with its magic");
    J.write_len = 0;
    rs_long_t w; W = w; VP_ASSUME(w >= 0); _Bool d; wdone = d;
    vp_end = n; vp_pos = p; cov = p; vp_split(&J, 0); VP_ASSUME(wdone == (W < cov));
    ST0 = J.statefn;
    r = J.statefn(&J);
    VP_ASSERT(ncopy == 0 && nend == 0 && lit_due == 0 && wdone == (W < cov), "slack delta: literal data only, each byte once");
    if (p < n) {
        VP_ASSERT(r == RS_RUNNING && nlit == 1 && cov == (rs_long_t)(p + J.copy_len) && vp_pos == p && J.copy_len > 0 && J.statefn == ST0, "slack delta: sends pending input");
        VP_REACH("data");
    } else if (!S.eof_in) {
        VP_ASSERT(r == RS_BLOCKED && nlit == 0 && J.statefn == ST0, "slack delta: waits for input");
    } else {
        VP_ASSERT(r == RS_RUNNING && nlit == 0, "slack delta: end of input");
        r = J.statefn(&J);
        VP_ASSERT(r == RS_DONE && nend == 1 && J.write_len == 1, "slack delta: ends with the end command");
        VP_REACH("end");
    }
}
