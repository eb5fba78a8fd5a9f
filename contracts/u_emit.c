/* Contracts on the delta encoder (emit.c over netint.c over tube.c) and on the
 * integer codec.  The specification is written from doc/formats.md. */
#define VP_SMALL 9
#include "vp.h"
#include "job.h"
#include "scoop.h"
#include "netint.h"
#include "emit.h"
#include "command.h"
#include "prototab.h"

/* narrowest of 1, 2, 4, 8 bytes */
static inline int sp_width(rs_long_t v)
{
    return v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000LL ? 4 : 8;
}
/* byte i of the w-byte big-endian form of v */
static inline u8 sp_be(rs_long_t v, int w, int i) { return (u8)((uint64_t)v >> (8 * (w - 1 - i))); }
static inline _Bool sp_beat(const u8 *b, rs_long_t v, int w)
{
    return (0 >= w || b[0] == sp_be(v, w, 0)) && (1 >= w || b[1] == sp_be(v, w, 1))
        && (2 >= w || b[2] == sp_be(v, w, 2)) && (3 >= w || b[3] == sp_be(v, w, 3))
        && (4 >= w || b[4] == sp_be(v, w, 4)) && (5 >= w || b[5] == sp_be(v, w, 5))
        && (6 >= w || b[6] == sp_be(v, w, 6)) && (7 >= w || b[7] == sp_be(v, w, 7));
}
static inline int sp_log(int w) { return w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3; }

size_t H;                       /* arbitrary earlier queue position */
u8 HV;

#define JOBREQ(room) \
  REQ(job != NULL) \
  REQ(job->copy_len == 0 && job->write_len <= sizeof(job->write_buf) - (room)) \
  REQ(H < job->write_len ==> job->write_buf[H] == HV)
#define QASG job->write_buf, job->write_len
#define KEEPQ ENS(H < OLD(job->write_len) ==> job->write_buf[H] == HV)
#define QAT (job->write_buf + OLD(job->write_len))

int rs_int_len(rs_long_t val)
  REQ(val >= 0)
  ASG()
  ENS(RET == sp_width(val));

rs_result rs_squirt_byte(rs_job_t *job, rs_byte_t val)
  JOBREQ(1)
  ASG(QASG)
  KEEPQ
  ENS(RET == RS_DONE && job->write_len == OLD(job->write_len) + 1 && QAT[0] == val);

rs_result rs_squirt_netint(rs_job_t *job, rs_long_t val, int len)
  REQ(1 <= len && len <= 8)
  JOBREQ((size_t)len)
  ASG(QASG)
  KEEPQ
  ENS(RET == RS_DONE && job->write_len == OLD(job->write_len) + len)
  ENS(sp_beat(QAT, val, len));

rs_result rs_squirt_n4(rs_job_t *job, int val)
  JOBREQ(4)
  ASG(QASG)
  KEEPQ
  ENS(RET == RS_DONE && job->write_len == OLD(job->write_len) + 4)
  ENS(sp_beat(QAT, (rs_long_t)(uint32_t)val, 4));

void rs_emit_delta_header(rs_job_t *job)
  JOBREQ(4)
  ASG(QASG)
  KEEPQ
  ENS(job->write_len == OLD(job->write_len) + 4)
  ENS(QAT[0] == 'r' && QAT[1] == 's' && QAT[2] == 0x02 && QAT[3] == '6');

#define LW (len <= 64 ? 0 : sp_width(len))
void rs_emit_literal_cmd(rs_job_t *job, int len)
  REQ(len >= 1)
  JOBREQ(5)
  REQ(job->stats.lit_cmds < INT_MAX && job->stats.lit_cmds >= 0)
  REQ(job->stats.lit_bytes >= 0 && job->stats.lit_bytes < ((rs_long_t)1 << 62))
  REQ(job->stats.lit_cmdbytes >= 0 && job->stats.lit_cmdbytes < ((rs_long_t)1 << 62))
  ASG(QASG, job->stats.lit_cmds, job->stats.lit_bytes, job->stats.lit_cmdbytes)
#if defined P_C05 || defined P_C01 || defined P_C07
  KEEPQ
  ENS(job->write_len == OLD(job->write_len) + 1 + LW)
  ENS(QAT[0] == (LW == 0 ? len : 0x41 + sp_log(LW)))
  ENS(sp_beat(QAT + 1, len, LW))
#endif
#ifdef P_C14
  ENS(job->stats.lit_cmds == OLD(job->stats.lit_cmds) + 1)
  ENS(job->stats.lit_bytes == OLD(job->stats.lit_bytes) + len)
  ENS(job->stats.lit_cmdbytes == OLD(job->stats.lit_cmdbytes) + (rs_long_t)(job->write_len - OLD(job->write_len)))
#endif
;

void rs_emit_copy_cmd(rs_job_t *job, rs_long_t where, rs_long_t len)
  REQ(where >= 0 && len >= 1)
  JOBREQ(17)
  REQ(job->stats.copy_cmds >= 0 && job->stats.copy_cmds < ((rs_long_t)1 << 62))
  REQ(job->stats.copy_bytes >= 0 && job->stats.copy_bytes <= INT64_MAX - len)
  REQ(job->stats.copy_cmdbytes >= 0 && job->stats.copy_cmdbytes < ((rs_long_t)1 << 62))
  ASG(QASG, job->stats.copy_cmds, job->stats.copy_bytes, job->stats.copy_cmdbytes)
#if defined P_C05 || defined P_C01 || defined P_C07
  KEEPQ
  ENS(job->write_len == OLD(job->write_len) + 1 + sp_width(where) + sp_width(len))
  ENS(QAT[0] == 0x45 + 4 * sp_log(sp_width(where)) + sp_log(sp_width(len)))
  ENS(sp_beat(QAT + 1, where, sp_width(where)))
  ENS(sp_beat(QAT + 1 + sp_width(where), len, sp_width(len)))
#endif
#ifdef P_C14
  ENS(job->stats.copy_cmds == OLD(job->stats.copy_cmds) + 1)
  ENS(job->stats.copy_bytes == OLD(job->stats.copy_bytes) + len)
  ENS(job->stats.copy_cmdbytes == OLD(job->stats.copy_cmdbytes) + (rs_long_t)(job->write_len - OLD(job->write_len)))
#endif
;

void rs_emit_end_cmd(rs_job_t *job)
  JOBREQ(1)
  ASG(QASG)
  KEEPQ
  ENS(job->write_len == OLD(job->write_len) + 1 && QAT[0] == 0);

#include "tube.c"
#include "scoop.c"
#include "util.c"
#include "netint.c"
#include "emit.c"
#include "prototab.c"

#define PRE size_t h; u8 hv; H = h; HV = hv; rs_job_t J, *job = &J; rs_buffers_t S; J.stream = &S
void h_int_len(void) { rs_long_t v; rs_int_len(v); VP_REACH("end"); }
void h_squirt_byte(void) { PRE; u8 v; rs_squirt_byte(job, v); VP_REACH("end"); }
void h_squirt_netint(void) { PRE; rs_long_t v; int l; rs_squirt_netint(job, v, l); VP_REACH("end"); }
void h_squirt_n4(void) { PRE; int v; rs_squirt_n4(job, v); VP_REACH("end"); }
void h_delta_header(void) { PRE; rs_emit_delta_header(job); VP_REACH("end"); }
void h_literal(void) { PRE; int len; rs_emit_literal_cmd(job, len); VP_REACH("end"); }
void h_copycmd(void) { PRE; rs_long_t w, l; rs_emit_copy_cmd(job, w, l); VP_REACH("end"); }
void h_endcmd(void) { PRE; rs_emit_end_cmd(job); VP_REACH("end"); }

/* Lemma: the command table the patch uses is the documented one, for every op. */
void h_table(void)
{
    u8 op;
    const rs_prototab_ent_t *e = &rs_prototab[op];
    if (op == 0) {
        VP_ASSERT(e->kind == RS_KIND_END && e->len_1 == 0 && e->len_2 == 0, "op 0 is END without parameters");
    } else if (op <= 0x40) {
        VP_ASSERT(e->kind == RS_KIND_LITERAL && e->immediate == op && e->len_1 == 0 && e->len_2 == 0, "ops 1..64 are immediate literals");
    } else if (op <= 0x44) {
        VP_ASSERT(e->kind == RS_KIND_LITERAL && e->len_1 == (size_t)(1 << (op - 0x41)) && e->len_2 == 0, "ops 0x41..0x44 are literals with 1,2,4,8 byte length");
    } else if (op <= 0x54) {
        VP_ASSERT(e->kind == RS_KIND_COPY && e->len_1 == (size_t)(1 << ((op - 0x45) / 4)) && e->len_2 == (size_t)(1 << ((op - 0x45) % 4)), "ops 0x45..0x54 are copies with 1,2,4,8 byte position and length");
    } else {
        VP_ASSERT(e->kind != RS_KIND_END && e->kind != RS_KIND_LITERAL && e->kind != RS_KIND_COPY && e->len_1 == 0, "ops 0x55..0xff are reserved without parameters");
    }
    VP_REACH("end");
}
