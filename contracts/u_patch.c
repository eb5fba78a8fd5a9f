/* Contracts on the patch state machine, one per command, written from
 * doc/formats.md.  The machine is stepped through the real state functions from
 * a command boundary to the next observable event, so it does not matter how
 * the code divides a command into states. */
#define VP_TRACKED_MEM
#include "vp.h"
#include "job.h"
#include "scoop.h"
#include "netint.h"
#include "command.h"
#include "prototab.h"
#include "l1.h"
#include "tube.c"
#undef memcpy
#undef memmove
#include "netint.c"
/* The command table, by its contract (lemma u_emit.c:h_table, proved on the real
 * table for every op): vp_ent[0] stands for the entry of the command GOP at hand. */
rs_prototab_ent_t vp_ent[1];
size_t GOP;
#define rs_prototab (vp_ent - GOP)
static void vp_table(u8 op)
{
    GOP = op;
    rs_prototab_ent_t e;
    VP_ASSUME(op == 0 ? e.kind == RS_KIND_END : op <= 0x44 ? e.kind == RS_KIND_LITERAL : op <= 0x54 ? e.kind == RS_KIND_COPY :
              e.kind != RS_KIND_END && e.kind != RS_KIND_LITERAL && e.kind != RS_KIND_COPY);
    VP_ASSUME(op >= 1 && op <= 0x40 ? e.immediate == op : 1);
    e.len_1 = op >= 0x41 && op <= 0x44 ? 1 << (op - 0x41) : op >= 0x45 && op <= 0x54 ? 1 << ((op - 0x45) / 4) : 0;
    e.len_2 = op >= 0x45 && op <= 0x54 ? 1 << ((op - 0x45) % 4) : 0;
    vp_ent[0] = e;
}
char const *rs_op_kind_name(enum rs_op_kind k) { return ""; }
char const *rs_strerror(rs_result r) { return ""; }
void rs_mdfour_begin(rs_mdfour_t *m) { }
static rs_job_t *NJ;
rs_job_t *rs_job_new(char const *n, rs_result (*fn)(rs_job_t *)) { NJ->statefn = fn; return NJ; }
#define memcpy(d, s, n) vp_memcpy((d), (s), (n))
#define memmove(d, s, n) vp_memmove((d), (s), (n))
#include "patch.c"

static rs_long_t be(const u8 *p, int w)
{
    uint64_t v = 0;
    for (int i = 0; i < 8; i++)
        if (i < w) v = v << 8 | p[i];
    return (rs_long_t)v;
}
#define S0 rs_job_t J, *job = &J; rs_buffers_t S; J.stream = &S; J.dogtag = RS_JOB_TAG; size_t n; vp_input(job, n)

/* ---- header ---- */
void h_header(void)
{
    S0;
    NJ = job;
    rs_copy_cb *cb; void *ca;
    rs_job_t *j2 = rs_patch_begin(cb, ca);
    VP_ASSERT(j2 == job && job->copy_cb == cb && job->copy_arg == ca, "rs_patch_begin keeps the callback and its argument");
    _Bool good = n >= 4 && vp_in[0] == 'r' && vp_in[1] == 's' && vp_in[2] == 2 && vp_in[3] == '6';
    rs_result r = job->statefn(job);
    if (n < 4) {
        VP_ASSERT(r == (S.eof_in ? RS_INPUT_ENDED : RS_BLOCKED), "header: short input is blocked or ended");
        VP_ASSERT(vp_pos == 0, "header: short input is not consumed");
    } else if (good) {
        VP_ASSERT(r == RS_RUNNING && vp_pos == 4 && job->statefn == rs_patch_s_cmdbyte, "header: right magic is accepted");
    } else
        VP_ASSERT(r == RS_BAD_MAGIC, "header: any other magic is RS_BAD_MAGIC");
    VP_REACH("end");
}

/* ---- one command, input arriving in two arbitrary parts ---- */
static rs_result cb_none(void *a, rs_long_t pos, size_t *len, void **buf)
{
    VP_ASSERT(0, "callback not called while there is no output space");
    return RS_IO_ERROR;
}
void h_command(void)
{
    rs_job_t J, *job = &J; rs_buffers_t S; J.stream = &S; J.dogtag = RS_JOB_TAG;
    /* A command is at most 17 bytes; the pending input may be any longer. */
    size_t n, n1; u8 B[24]; vp_in = B; VP_ASSUME(n <= VP_MAXB); vp_pos = 0; vp_end = n; vp_split(job, 0);
    int eof1 = S.eof_in, r1done = 0;
    J.statefn = rs_patch_s_cmdbyte;
    J.copy_len = 0;
    J.write_len = 0;
    J.copy_cb = cb_none;
    S.avail_out = 0;
    rs_stats_t t0 = J.stats;
#define SMALL(x) VP_ASSUME(0 <= (x) && (x) < (1LL << 62))
    SMALL(J.stats.lit_cmds); VP_ASSUME(J.stats.lit_cmds < INT_MAX); SMALL(J.stats.lit_bytes); SMALL(J.stats.lit_cmdbytes);
    SMALL(J.stats.copy_cmds); SMALL(J.stats.copy_bytes); SMALL(J.stats.copy_cmdbytes);
    t0 = J.stats;
    /* what the documentation says */
    u8 op = n ? vp_in[0] : 0;
    vp_table(op);
    int l1 = op >= 0x41 && op <= 0x44 ? 1 << (op - 0x41) : op >= 0x45 && op <= 0x54 ? 1 << ((op - 0x45) / 4) : 0;
    int l2 = op >= 0x45 && op <= 0x54 ? 1 << ((op - 0x45) % 4) : 0;
#if VP_PART == 1
    VP_ASSUME(n == 0 || op <= 0x44 || op > 0x54);
#elif VP_PART == 2
    VP_ASSUME(n && op >= 0x45 && op <= 0x4c);
#elif VP_PART == 3
    VP_ASSUME(n && op >= 0x4d && op <= 0x54);
#endif
    size_t k = 1 + l1 + l2;
    rs_long_t p1 = n >= k && l1 ? be(vp_in + 1, l1) : 0, p2 = n >= k && l2 ? be(vp_in + 1 + l1, l2) : 0;
    rs_long_t litlen = op <= 0x40 ? op : p1;
    SMALL(t0.copy_bytes + (p2 > 0 ? p2 : 0)); SMALL(t0.lit_bytes + (litlen > 0 ? litlen : 0));
    /* first part of the input, not ended */
    VP_ASSUME(n1 <= n);
    rs_result r = RS_RUNNING;
    int i;
    for (i = 0; i < 6 && r == RS_RUNNING && !J.copy_len && (i == 0 || J.statefn != rs_patch_s_cmdbyte); i++) {
        if (i == 0) { vp_end = n1; S.eof_in = n1 == n ? eof1 : 0; vp_split(job, 0); }
        r = J.statefn(job);
    }
    if (n1 < k && n1 < n) {
        VP_ASSERT(r == RS_BLOCKED, "command: incomplete input blocks");
        VP_ASSERT(!J.copy_len && vp_pos <= n1, "command: nothing happens before the command is complete");
        /* the rest arrives */
        vp_end = n; S.eof_in = eof1; vp_split(job, 0);
        r = RS_RUNNING;
        for (i = 0; i < 6 && r == RS_RUNNING && !J.copy_len && (i == 0 || J.statefn != rs_patch_s_cmdbyte); i++)
            r = J.statefn(job);
    }
    VP_ASSERT(i < 6 || r != RS_RUNNING || J.copy_len || J.statefn == rs_patch_s_cmdbyte, "VPTOOL more steps per command than followed");
    rs_long_t dlc = J.stats.lit_cmds - t0.lit_cmds, dlb = J.stats.lit_bytes - t0.lit_bytes, dlx = J.stats.lit_cmdbytes - t0.lit_cmdbytes;
    rs_long_t dcc = J.stats.copy_cmds - t0.copy_cmds, dcb = J.stats.copy_bytes - t0.copy_bytes, dcx = J.stats.copy_cmdbytes - t0.copy_cmdbytes;
    _Bool st0 = !dlc && !dlb && !dlx && !dcc && !dcb && !dcx;
#ifndef P_C14
    if (n == 0)
        VP_ASSERT(r == (S.eof_in ? RS_INPUT_ENDED : RS_BLOCKED), "command: no input");
    else if (op == 0)
        VP_ASSERT(r == RS_DONE && vp_pos == 1, "END finishes the patch");
    else if (op > 0x54)
        VP_ASSERT(r == RS_CORRUPT, "reserved command is RS_CORRUPT");
    else if (n < k)
        VP_ASSERT(r == (S.eof_in ? RS_INPUT_ENDED : RS_BLOCKED) && !J.copy_len, "truncated command is blocked or RS_INPUT_ENDED");
    else if (op <= 0x44) {
        if (litlen <= 0)
            VP_ASSERT(r == RS_CORRUPT && !J.copy_len, "LITERAL of no or negative length is RS_CORRUPT");
        else
            VP_ASSERT(r == RS_RUNNING && vp_pos == k && J.copy_len == (size_t)litlen && J.statefn == rs_patch_s_cmdbyte,
                      "LITERAL queues exactly its length of following data");
    } else {
        if (p1 < 0 || p2 <= 0)
            VP_ASSERT(r == RS_CORRUPT, "COPY of negative position or non-positive length is RS_CORRUPT");
        else
            VP_ASSERT(r == RS_BLOCKED && vp_pos == k && J.basis_pos == p1 && J.basis_len == p2 && J.statefn == rs_patch_s_copying,
                      "COPY starts copying exactly its range");
    }
    VP_ASSERT(J.write_len == 0, "patch never queues bytes of its own");
#else
    if (n >= k && op >= 1 && op <= 0x44 && litlen > 0)
        VP_ASSERT(dlc == 1 && dlb == litlen && dlx == (rs_long_t)k && !dcc && !dcb && !dcx, "statistics count a LITERAL once, with its data and command bytes");
    else if (n >= k && op >= 0x45 && op <= 0x54 && p1 >= 0 && p2 > 0)
        VP_ASSERT(dcc == 1 && dcb == p2 && dcx == (rs_long_t)k && !dlc && !dlb && !dlx, "statistics count a COPY once, with its data and command bytes");
    else
        VP_ASSERT(st0, "statistics unchanged by anything else");
#endif
    VP_REACH("end");
}

/* ---- copying ---- */
static void *CA, *OUT;
static rs_long_t CPOS, CLEN;
static size_t ROOM, GOT, G;
static rs_result CRES;
static u8 *OWN;
static u8 GV;
static int CALLS;
static rs_result cb(void *a, rs_long_t pos, size_t *len, void **buf)
{
    CALLS++;
    VP_ASSERT(a == CA && pos == CPOS, "copy callback gets its argument and the basis position");
    VP_ASSERT(*len >= 1 && *len <= ROOM && (rs_long_t)*len <= CLEN, "copy callback asked for at least a byte, no more than is left or fits");
    VP_ASSERT((rs_long_t)*len == CLEN || *len == ROOM, "copy callback asked for all that is left and fits");
    VP_ASSERT(*buf == OUT, "copy callback is offered the output buffer");
    size_t g;
    rs_result r;
    if (r == RS_DONE) {
        VP_ASSUME(g >= 1 && g <= *len);
        *len = g;
        GOT = g;
        _Bool own;
        VP_ASSUME(G < g);
        if (own) {                      /* data in the callback's own buffer */
            OWN = malloc(g);
            OWN[G] = GV;
            vp_track(OWN + G, GV);
            *buf = OWN;
        } else {                        /* data in the offered buffer */
            ((u8 *)OUT)[G] = GV;
            vp_track((u8 *)OUT + G, GV);
        }
    }
    CRES = r;
    return r;
}
void h_copying(void)
{
    S0;
    size_t room; rs_long_t pos, len; void *ca; size_t g; u8 gv;
    VP_ASSUME(room <= VP_MAXB && pos >= 0 && len >= 1);
    G = g; GV = gv;
    J.basis_pos = CPOS = pos; J.basis_len = CLEN = len;
    J.copy_arg = CA = ca; J.copy_cb = cb;
    VP_ASSUME(pos <= INT64_MAX - len);
    OUT = malloc(room); S.next_out = OUT; S.avail_out = ROOM = room;
    J.statefn = rs_patch_s_copying; J.copy_len = 0; J.write_len = 0;
    vp_ncell = 0;
    rs_stats_t t0 = J.stats;
    VP_ASSUME(room >= 1);
    rs_result r = J.statefn(job);
    VP_ASSERT(vp_pos == 0 && !J.copy_len && !J.write_len, "copying takes no input and queues nothing");
    {
        VP_ASSERT(CALLS == 1, "copying calls the callback once");
        if (CRES != RS_DONE)
            VP_ASSERT(r == CRES, "an error of the copy callback is returned");
        else {
            VP_ASSERT(r == RS_RUNNING && S.avail_out == room - GOT && S.next_out == (char *)OUT + GOT, "output advances by what the callback gave");
            VP_ASSERT(J.basis_pos == pos + (rs_long_t)GOT && J.basis_len == len - (rs_long_t)GOT, "position advances by what the callback gave");
            VP_ASSERT(((u8 *)OUT)[G] == GV, "output holds the callback's data");
            VP_ASSERT(J.statefn == (GOT == (size_t)len ? rs_patch_s_cmdbyte : rs_patch_s_copying), "next command after exactly the whole range");
        }
    }
    VP_REACH("end");
}
void h_copying0(void)
{   /* no room */
    S0;
    J.basis_pos = 5; VP_ASSUME(J.basis_len >= 1);
    J.copy_cb = cb_none; S.avail_out = 0; rs_long_t l = J.basis_len;
    J.statefn = rs_patch_s_copying;
    rs_result r = J.statefn(job);
    VP_ASSERT(r == RS_BLOCKED && J.basis_len == l && J.basis_pos == 5 && vp_pos == 0 && J.statefn == rs_patch_s_copying, "copying without room blocks");
    VP_REACH("end");
}
