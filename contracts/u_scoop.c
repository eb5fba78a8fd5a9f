/* Contracts on the readahead interface: rs_scoop_readahead, rs_scoop_read,
 * rs_scoop_read_rest, rs_scoop_advance.  View = scoop_next[0..scoop_avail) ++
 * next_in[0..avail_in).  G is an arbitrary view index, GV the byte there. */
#define VP_TRACKED_MEM
#include "vp.h"
#include "job.h"
#include "scoop.h"
size_t G;
u8 GV;

#define JOB_SHAPE(job) \
  REQ(job != NULL) \
  REQ(job->dogtag == RS_JOB_TAG) \
  REQ(job->scoop_alloc <= VP_MAXB && job->stream->avail_in <= VP_MAXB) \
  REQ(FRESH(job->stream->next_in, job->stream->avail_in)) \
  REQ(FRESH(job->scoop_buf, job->scoop_alloc)) \
  REQ(__CPROVER_pointer_in_range_dfcc(job->scoop_buf, job->scoop_next, job->scoop_buf + job->scoop_alloc)) \
  REQ(job->scoop_avail <= (size_t)((job->scoop_buf + job->scoop_alloc) - job->scoop_next)) \
  REQ(vp_ncell == (G < VLEN(job))) \
  REQ(vp_ncell ==> __CPROVER_pointer_equals(vp_cell[0], VPTR(job, G))) \
  REQ(vp_ncell ==> *vp_cell[0] == GV) \
  REQ(vp_cellv[0] == GV)

/* scoop well-formedness after the call */
#define SCOOP_WF(job) \
  ENS((job)->scoop_alloc == 0 ? (job)->scoop_avail == 0 : \
      (__CPROVER_r_ok((job)->scoop_buf, (job)->scoop_alloc) && __CPROVER_same_object((job)->scoop_buf, (job)->scoop_next) \
       && __CPROVER_POINTER_OFFSET((job)->scoop_next) - __CPROVER_POINTER_OFFSET((job)->scoop_buf) <= (job)->scoop_alloc \
       && (job)->scoop_avail <= (job)->scoop_alloc - (__CPROVER_POINTER_OFFSET((job)->scoop_next) - __CPROVER_POINTER_OFFSET((job)->scoop_buf))))

#define SCOOP_ASG ASG(*ptr, job->scoop_buf, job->scoop_next, job->scoop_alloc, job->scoop_avail, \
   job->stream->next_in, job->stream->avail_in, vp_ncell, __CPROVER_object_whole(vp_cell), __CPROVER_object_whole(vp_cellv), \
   __CPROVER_object_whole(job->scoop_buf)) __CPROVER_frees(job->scoop_buf)

rs_result rs_scoop_readahead(rs_job_t *job, size_t len, void **ptr)
  JOB_SHAPE(job)
  REQ(len <= VP_MAXB)
  SCOOP_ASG
  ENS(VLEN(job) == OLD(job->scoop_avail) + OLD(job->stream->avail_in))
  ENS(G < VLEN(job) ==> *VPTR(job, G) == GV)
  ENS((RET == RS_DONE) == (VLEN(job) >= len))
  ENS(RET == RS_DONE && G < len ==> ((u8 *)*ptr)[G] == GV)
  ENS(RET == RS_DONE ==> len == 0 || __CPROVER_r_ok(*ptr, len))
  ENS(RET == RS_DONE ==> (job->scoop_avail ? job->scoop_avail >= len : job->stream->avail_in >= len))
  ENS(VLEN(job) < len ==> RET == (job->stream->eof_in ? RS_INPUT_ENDED : RS_BLOCKED))
  ENS(VLEN(job) < len ==> job->stream->avail_in == 0)
  ENS(job->stream->avail_in <= OLD(job->stream->avail_in))
  ENS((char *)job->stream->next_in - (char *)OLD(job->stream->next_in) == (ptrdiff_t)(OLD(job->stream->avail_in) - job->stream->avail_in))
  SCOOP_WF(job);

rs_result rs_scoop_read(rs_job_t *job, size_t len, void **ptr)
  JOB_SHAPE(job)
  REQ(len <= VP_MAXB)
  SCOOP_ASG
  ENS((RET == RS_DONE) == (OLD(job->scoop_avail) + OLD(job->stream->avail_in) >= len))
  ENS(VLEN(job) == OLD(job->scoop_avail) + OLD(job->stream->avail_in) - (RET == RS_DONE ? len : 0))
  ENS(RET == RS_DONE && G < len ==> ((u8 *)*ptr)[G] == GV)
  ENS(RET == RS_DONE ==> len == 0 || __CPROVER_r_ok(*ptr, len))
  ENS(RET == RS_DONE && G >= len && G - len < VLEN(job) ==> *VPTR(job, G - len) == GV)
  ENS(RET != RS_DONE && G < VLEN(job) ==> *VPTR(job, G) == GV)
  ENS(RET != RS_DONE ==> RET == (job->stream->eof_in ? RS_INPUT_ENDED : RS_BLOCKED))
  ENS(RET != RS_DONE ==> job->stream->avail_in == 0)
  SCOOP_WF(job);

rs_result rs_scoop_read_rest(rs_job_t *job, size_t *len, void **ptr)
  JOB_SHAPE(job)
  ASG(*len)
  SCOOP_ASG
  ENS(*len == OLD(job->scoop_avail) + OLD(job->stream->avail_in))
  ENS(VLEN(job) == 0)
  ENS((RET == RS_DONE) == (*len > 0))
  ENS(*len == 0 ==> RET == (job->stream->eof_in ? RS_INPUT_ENDED : RS_BLOCKED))
  ENS(RET == RS_DONE && G < *len ==> ((u8 *)*ptr)[G] == GV)
  ENS(RET == RS_DONE ==> __CPROVER_r_ok(*ptr, *len))
  SCOOP_WF(job);

void rs_scoop_advance(rs_job_t *job, size_t len)
  JOB_SHAPE(job)
  REQ(job->scoop_avail ? len <= job->scoop_avail : len <= job->stream->avail_in)
  ASG(job->scoop_next, job->scoop_avail, job->stream->next_in, job->stream->avail_in)
  ENS(VLEN(job) == OLD(job->scoop_avail) + OLD(job->stream->avail_in) - len)
  ENS(OLD(job->scoop_avail) != 0 ? job->stream->avail_in == OLD(job->stream->avail_in) : job->scoop_avail == 0)
  ENS(G >= len && G - len < VLEN(job) ==> *VPTR(job, G - len) == GV)
  SCOOP_WF(job);

#include "scoop.c"
#include "util.c"

#define HARNESS_PRE size_t g; u8 gv; int nc; u8 *c; G = g; GV = gv; vp_cellv[0] = gv; vp_ncell = nc; vp_cell[0] = c; rs_job_t J, *job = &J; rs_buffers_t S; J.stream = &S; size_t len; void *PP, **ptr = &PP
void h_readahead(void) { HARNESS_PRE; rs_scoop_readahead(job, len, ptr); VP_REACH("end"); }
void h_read(void) { HARNESS_PRE; rs_scoop_read(job, len, ptr); VP_REACH("end"); }
void h_read_rest(void) { HARNESS_PRE; size_t LL, *plen = &LL; rs_scoop_read_rest(job, plen, ptr); VP_REACH("end"); }
void h_advance(void) { HARNESS_PRE; rs_scoop_advance(job, len); VP_REACH("end"); }
