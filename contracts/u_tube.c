/* Contracts on the output queue: rs_tube_catchup, rs_tube_write, rs_tube_copy,
 * rs_tube_is_idle.  One arbitrary byte is followed, chosen by MODE:
 *   1: byte G of the input view, 2: byte G of the queued command bytes,
 *   3: byte G of the caller's output space. */
#define VP_TRACKED_MEM
#include "vp.h"
#include "job.h"
#include "scoop.h"
size_t G;
u8 GV;
#ifdef VP_MODE
#define MODE VP_MODE
#define SETMODE(m)
#else
int MODE;
#define SETMODE(m) MODE = m
#endif
size_t W0, C0, V0, O0;          /* write_len, copy_len, view length, avail_out before */
u8 *OUT0;                       /* next_out before */

#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define wq MIN(W0, O0)
#define cq (W0 > O0 ? 0 : MIN(C0, MIN(V0, O0 - W0)))

rs_result rs_tube_catchup(rs_job_t *job)
  REQ(job != NULL)
  REQ(job->dogtag == RS_JOB_TAG)
  REQ(job->scoop_alloc <= VP_MAXB && job->stream->avail_in <= VP_MAXB && job->stream->avail_out <= VP_MAXB)
  REQ(FRESH(job->stream->next_in, job->stream->avail_in))
  REQ(FRESH(job->scoop_buf, job->scoop_alloc))
  REQ(FRESH(job->stream->next_out, job->stream->avail_out))
  REQ(__CPROVER_pointer_in_range_dfcc(job->scoop_buf, job->scoop_next, job->scoop_buf + job->scoop_alloc))
  REQ(job->scoop_avail <= (size_t)((job->scoop_buf + job->scoop_alloc) - job->scoop_next))
  REQ(job->write_len <= sizeof(job->write_buf))
  REQ(W0 == job->write_len && C0 == job->copy_len && V0 == VLEN(job) && O0 == job->stream->avail_out)
  REQ(__CPROVER_pointer_equals(OUT0, (u8 *)job->stream->next_out))
  REQ(1 <= MODE && MODE <= 3)
  REQ(MODE == 1 ==> G < V0 && __CPROVER_pointer_equals(vp_cell[0], VPTR(job, G)))
  REQ(MODE == 2 ==> G < W0 && __CPROVER_pointer_equals(vp_cell[0], job->write_buf + G))
  REQ(MODE == 3 ==> G < O0 && __CPROVER_pointer_equals(vp_cell[0], OUT0 + G))
  REQ(vp_ncell == 1 && vp_cellv[0] == GV && *vp_cell[0] == GV)
  ASG(job->write_buf, job->write_len, job->copy_len, job->scoop_next, job->scoop_avail, job->stream->next_in,
      job->stream->avail_in, job->stream->next_out, job->stream->avail_out, vp_ncell, __CPROVER_object_whole(vp_cell),
      __CPROVER_object_whole(vp_cellv), __CPROVER_object_whole(job->stream->next_out))
  /* how much moves */
  ENS(job->write_len == W0 - wq && job->copy_len == C0 - cq && VLEN(job) == V0 - cq)
  ENS(job->scoop_avail == (OLD(job->scoop_avail) > cq ? OLD(job->scoop_avail) - cq : 0))
  ENS(job->stream->avail_out == O0 - wq - cq && (u8 *)job->stream->next_out == OUT0 + wq + cq)
  /* what is reported */
  ENS(RET == (job->write_len ? RS_BLOCKED : !job->copy_len ? RS_DONE :
              VLEN(job) == 0 && job->stream->eof_in ? RS_INPUT_ENDED : RS_BLOCKED))
  /* where every byte goes */
  ENS(MODE == 1 && G < cq ==> OUT0[W0 + G] == GV)
  ENS(MODE == 1 && G >= cq ==> *VPTR(job, G - cq) == GV)
  ENS(MODE == 2 && G < wq ==> OUT0[G] == GV)
  ENS(MODE == 2 && G >= wq ==> job->write_buf[G - wq] == GV)
  ENS(MODE == 3 && G >= wq + cq ==> OUT0[G] == GV);

void rs_tube_write(rs_job_t *job, const void *buf, size_t len)
  REQ(job != NULL)
  REQ(job->write_len <= sizeof(job->write_buf) && len <= sizeof(job->write_buf) - job->write_len)
  REQ(job->copy_len == 0)
  REQ(FRESH(buf, len))
  REQ(W0 == job->write_len)
  REQ(MODE == 1 || MODE == 2)
  REQ(MODE == 1 ==> G < len && __CPROVER_pointer_equals(vp_cell[0], (u8 *)buf + G))
  REQ(MODE == 2 ==> G < sizeof(job->write_buf) && __CPROVER_pointer_equals(vp_cell[0], job->write_buf + G))
  REQ(vp_ncell == 1 && vp_cellv[0] == GV && *vp_cell[0] == GV)
  ASG(job->write_buf, job->write_len, vp_ncell, __CPROVER_object_whole(vp_cell), __CPROVER_object_whole(vp_cellv))
  ENS(job->write_len == W0 + len)
  ENS(MODE == 1 ==> job->write_buf[W0 + G] == GV)
  ENS(MODE == 2 && G < W0 ==> job->write_buf[G] == GV);

void rs_tube_copy(rs_job_t *job, size_t len)
  REQ(job != NULL)
  REQ(job->copy_len == 0)
  ASG(job->copy_len)
  ENS(job->copy_len == len);

int rs_tube_is_idle(rs_job_t const *job)
  REQ(job != NULL)
  ASG()
  ENS((RET != 0) == (job->write_len == 0 && job->copy_len == 0));

#include "tube.c"
#include "scoop.c"
#include "util.c"

#define PRE size_t g, a, b, c, d; u8 gv; int m; u8 *p, *q; G = g; GV = gv; SETMODE(m); W0 = a; C0 = b; V0 = c; O0 = d; OUT0 = p; \
  vp_cellv[0] = gv; vp_ncell = 1; vp_cell[0] = q; rs_job_t J, *job = &J; rs_buffers_t S; J.stream = &S
void h_catchup(void) { PRE; rs_tube_catchup(job); VP_REACH("end"); }
void h_write(void) { PRE; void *buf; size_t len; rs_tube_write(job, buf, len); VP_REACH("end"); }
void h_copy(void) { PRE; size_t len; rs_tube_copy(job, len); VP_REACH("end"); }
void h_idle(void) { PRE; rs_tube_is_idle(job); VP_REACH("end"); }
