/* Contract stand-ins for the readahead interface, used to check its callers.
 * Each asserts the callee's precondition, havocs what it may change and assumes
 * its postcondition; the contracts themselves are enforced on the real code in
 * u_scoop.c.  The pending input is vp_in[vp_pos .. vp_end), where vp_end is what
 * the caller of the job has supplied so far. */
#ifndef L1_H
#define L1_H
u8 *vp_in;
size_t vp_pos, vp_end;

static void vp_split(rs_job_t *job, size_t min)
{
    size_t n = vp_end - vp_pos, sc;
    VP_ASSUME(sc <= n && (sc == 0 || sc >= min));
    job->scoop_avail = sc;
    job->stream->avail_in = n - sc;
    job->scoop_next = vp_in + vp_pos;
    job->stream->next_in = (char *)(vp_in + vp_pos + sc);
}
#define VP_VIEW_OK(job) VP_ASSERT((job)->scoop_avail + (job)->stream->avail_in == vp_end - vp_pos, "pending input not tampered with")

/* take len bytes from the front: the scoop first */
static void vp_consume(rs_job_t *job, size_t len)
{
    size_t k = len < job->scoop_avail ? len : job->scoop_avail;
    vp_pos += len;
    job->scoop_avail -= k;
    job->stream->avail_in = vp_end - vp_pos - job->scoop_avail;
    job->scoop_next = vp_in + vp_pos;
    job->stream->next_in = (char *)(vp_in + vp_pos + job->scoop_avail);
}
rs_result rs_scoop_readahead(rs_job_t *job, size_t len, void **ptr)
{
    VP_VIEW_OK(job);
    size_t a0 = job->stream->avail_in;
    if (vp_end - vp_pos >= len) {
        vp_split(job, len);
        VP_ASSUME(job->stream->avail_in <= a0);
        *ptr = vp_in + vp_pos;
        return RS_DONE;
    }
    vp_split(job, vp_end - vp_pos);     /* all of it is in the scoop now */
    VP_ASSUME(job->stream->avail_in == 0);
    void *junk;
    *ptr = junk;
    return job->stream->eof_in ? RS_INPUT_ENDED : RS_BLOCKED;
}
void rs_scoop_advance(rs_job_t *job, size_t len)
{
    VP_VIEW_OK(job);
    VP_ASSERT(job->scoop_avail ? len <= job->scoop_avail : len <= job->stream->avail_in, "rs_scoop_advance stays within the contiguous pending input");
    VP_ASSUME(len <= vp_end - vp_pos);
    vp_consume(job, len);
}
rs_result rs_scoop_read(rs_job_t *job, size_t len, void **ptr)
{
    rs_result r = rs_scoop_readahead(job, len, ptr);
    if (r == RS_DONE) {
        vp_pos += len;
        vp_split(job, 0);
    }
    return r;
}
rs_result rs_scoop_read_rest(rs_job_t *job, size_t *len, void **ptr)
{
    VP_VIEW_OK(job);
    *len = vp_end - vp_pos;
    if (*len) {
        *ptr = vp_in + vp_pos;
        vp_pos += *len;
        vp_split(job, 0);
        return RS_DONE;
    }
    return job->stream->eof_in ? RS_INPUT_ENDED : RS_BLOCKED;
}
/* an arbitrary pending input of any length */
static void vp_input(rs_job_t *job, size_t n)
{
    VP_ASSUME(n <= VP_MAXB);
    vp_in = malloc(n);
    VP_ASSUME(vp_in != NULL);
    vp_pos = 0;
    vp_end = n;
    vp_split(job, 0);
}
#endif
