/* Bounded stand-in / replay driver over the PUBLIC librsync API.
 * vpn <property> <seed> <seconds> <statefile> [case]
 * Each case is a deterministic function of (seed, case).  Exit 0: all cases
 * agreed with the oracle; exit 1: a case failed (message on stdout). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "librsync.h"
#include "oracle.h"
#include "w0.h"

static struct { volatile u64 cur, done, nontriv; } *st;
static const char *PROP;
static char ctx[4096];          /* description of the current case */
static void CTX(const char *f, ...) { va_list a; va_start(a, f); size_t l = strlen(ctx); vsnprintf(ctx + l, sizeof ctx - l, f, a); va_end(a); }
static void hexdump(const char *n, const u8 *p, size_t l)
{
    printf("  %s (%zu bytes): ", n, l);
    for (size_t i = 0; i < l && i < 600; i++) printf("%02x", p[i]);
    printf("%s\n", l > 600 ? "..." : "");
}
static void FAIL(const char *f, ...)
{
    va_list a;
    va_start(a, f);
    printf("FAIL property=%s case=%llu: ", PROP, (unsigned long long)st->cur);
    vprintf(f, a);
    printf("\n  context: %s\n", ctx);
    va_end(a);
    fflush(stdout);
    _exit(1);
}
static void on_alarm(int s) { (void)s; static const char m[] = "FAIL timeout: the case did not finish (hang)\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }

/* ---- data generation ---- */
static size_t gsize(rng *r)
{
    switch (rb(r, 20)) {
    case 0: case 1: return rb(r, 4);
    case 2: case 3: case 4: case 5: case 6: return rb(r, 70);
    case 7: case 8: case 9: case 10: case 11: return rb(r, 300);
    case 12: case 13: case 14: case 15: return rb(r, 3000);
    case 16: case 17: return rb(r, 20000);
    case 18: return 65000 + rb(r, 2000);
    default: return rb(r, 140000);
    }
}
static void gfill(rng *r, u8 *p, size_t n)
{
    int mode = (int)rb(r, 6); u64 per = 1 + rb(r, 40);
    for (size_t i = 0; i < n; i++)
        switch (mode) {
        case 0: p[i] = 0; break;
        case 1: p[i] = (u8)(rn(r) & 1); break;
        case 2: p[i] = i < per ? (u8)rn(r) : p[i - per]; break;
        case 3: p[i] = (u8)(i / 7 + i); break;
        default: p[i] = (u8)rn(r);
        }
}
static vec gfile(rng *r) { vec v = {0}; v.n = gsize(r); v.a = v.n + 1; v.p = malloc(v.a); gfill(r, v.p, v.n); return v; }
/* a new file related to the basis */
static vec gderive(rng *r, const vec *b, size_t bl)
{
    vec v = {0};
    int k = (int)rb(r, 8), pieces;
    if (k == 0) return gfile(r);
    if (k == 1) { v_put(&v, b->p, b->n); return v; }
    if (k == 2) { v_put(&v, b->p, b->n); if (v.n) for (int i = 0; i < 3; i++) v.p[rb(r, v.n)] ^= (u8)(1 + rb(r, 255)); return v; }
    pieces = 1 + (int)rb(r, 12);
    for (int i = 0; i < pieces; i++) {
        if (chance(r, 35) || !b->n) { size_t l = chance(r, 50) ? rb(r, 5) : chance(r, 95) ? rb(r, 200) : rb(r, 70000); u8 *t = malloc(l + 1); gfill(r, t, l); v_put(&v, t, l); free(t); }
        else if (chance(r, 60)) { size_t nb = (b->n + bl - 1) / bl, s = rb(r, nb) * bl, l = (1 + rb(r, 4)) * bl; if (l > b->n - s) l = b->n - s; v_put(&v, b->p + s, l); }
        else if (chance(r, 30)) { size_t s = (b->n - 1) / bl * bl; v_put(&v, b->p + s, b->n - s); }
        else { size_t s = rb(r, b->n), l = rb(r, b->n - s + 1); v_put(&v, b->p + s, l); }
        if (v.n > 200000) break;
    }
    return v;
}
static size_t gbl(rng *r) { switch (rb(r, 6)) { case 0: return 1 + rb(r, 4); case 1: return 1 + rb(r, 40); case 2: return 16; case 3: return 1 + rb(r, 300); case 4: return 2048; default: return 1 + rb(r, 5000); } }

/* ---- job driving under an arbitrary schedule ---- */
typedef struct { int in_mode, out_mode, late_eof; rng r; } sched;
static sched gsched(rng *r) { sched s = {(int)rb(r, 6), (int)rb(r, 6), chance(r, 50), {rn(r)}}; return s; }
static sched whole_sched(void) { sched s = {9, 9, 0, {1}}; return s; }
static size_t gchunk(rng *r, int mode, size_t left)
{
    size_t c;
    switch (mode) {
    case 0: c = 1; break;
    case 1: c = rb(r, 3); break;
    case 2: c = rb(r, 40); break;
    case 3: c = 1 + rb(r, 3000); break;
    case 4: c = rb(r, 5) ? rb(r, 20) : rb(r, 10000); break;
    case 5: c = 1 + rb(r, 70000); break;
    default: c = left; break;
    }
    return c;
}
/* Runs the job to a final result.  Checks the per-call protocol. */
static rs_result drive(rs_job_t *job, const u8 *in, size_t n, vec *out, sched s, size_t *consumed)
{
    size_t given = 0, lo = 0;        /* in[lo..given) is offered but not consumed */
    int idle = 0, eof = 0;
    rs_result res;
    if (n > 3000 && s.in_mode < 2) s.in_mode += 2;
    if (n > 20000 && s.in_mode == 2) s.in_mode = 3;
    if (n > 3000 && s.out_mode < 2) s.out_mode += 2;
    if (n > 20000 && s.out_mode == 2) s.out_mode = 3;
    for (u64 it = 0;; it++) {
        size_t add = gchunk(&s.r, s.in_mode, n - given), oc = gchunk(&s.r, s.out_mode, n * 2 + 70000);
        if (add > n - given) add = n - given;
        if (idle > 3) { if (!add && given < n) add = 1; if (!oc) oc = 1; }
        given += add;
        if (given == n && (!s.late_eof || (add == 0 && chance(&s.r, 50)) || idle > 3)) eof = 1;
        size_t il = given - lo;
        char *ib = malloc(il ? il : 1), *ob = malloc(oc ? oc : 1);
        memcpy(ib, in + lo, il);
        size_t cl = oc < 300 ? oc : 300; memset(ob, 0xA5, cl); if (oc > 300) memset(ob + oc - 64, 0xA5, 64);
        rs_buffers_t b = {0};
        b.next_in = ib; b.avail_in = il; b.eof_in = eof; b.next_out = ob; b.avail_out = oc;
        res = rs_job_iter(job, &b);
        if (b.avail_in > il || b.next_in != ib + (il - b.avail_in)) FAIL("input cursor inconsistent after iteration: il=%zu avail=%zu", il, b.avail_in);
        if (b.avail_out > oc || b.next_out != ob + (oc - b.avail_out)) FAIL("output cursor inconsistent after iteration: oc=%zu avail=%zu", oc, b.avail_out);
        for (size_t i = oc - b.avail_out; i < oc; i++) if ((i < cl || i >= oc - 64) && (u8)ob[i] != 0xA5) FAIL("output written past the reported end");
        if (memcmp(ib, in + lo, il)) FAIL("input buffer modified");
        if (b.eof_in != eof) FAIL("eof flag modified");
        v_put(out, ob, oc - b.avail_out);
        lo += il - b.avail_in;
        idle = (il - b.avail_in || oc - b.avail_out) ? 0 : idle + 1;
        free(ib); free(ob);
        if (res == RS_RUNNING) FAIL("RS_RUNNING returned to the caller");
        if (res != RS_BLOCKED) break;
        if (idle > 200) FAIL("job stalls: blocked %d times although given input, output space and end of input (offered=%zu consumed=%zu total=%zu)", idle, given, lo, n);
    }
    if (consumed) *consumed = lo;
    if (res == RS_DONE) {           /* stays done, emits nothing more */
        for (int k = 0; k < 2; k++) {
            char ob[64], ib[1];
            rs_buffers_t b = {0};
            b.next_out = ob; b.avail_out = k ? 64 : 0; b.next_in = ib; b.eof_in = 1;
            rs_result r2 = rs_job_iter(job, &b);
            if (r2 != RS_DONE || (k && b.avail_out != 64)) FAIL("finished job ran again: result %d, %zu bytes more", r2, 64 - b.avail_out);
        }
    }
    return res;
}

/* ---- delta parsing (oracle) ---- */
typedef struct { int lit; u64 pos, len; size_t dpos; } cmd;
typedef struct { cmd *c; size_t n; u64 litcmds, copycmds, litb, copyb, litcb, copycb; int res; size_t end; } parsed;
enum { P_OK, P_MAGIC, P_CORRUPT, P_ENDED };
static u64 be(const u8 *p, int w) { u64 v = 0; while (w--) v = v << 8 | *p++; return v; }
static parsed parse(const u8 *d, size_t n)
{
    parsed r = {0};
    size_t i = 4;
    r.res = P_ENDED;
    if (n < 4) { r.end = n; return r; }
    if (be(d, 4) != M_DELTA) { r.res = P_MAGIC; return r; }
    for (;;) {
        if (i >= n) { r.end = i; return r; }
        u8 op = d[i++];
        cmd c = {0};
        if (op == 0) { r.res = P_OK; r.end = i; return r; }
        if (op <= 64) { c.lit = 1; c.len = op; r.litcb++; }
        else if (op <= 68) { int w = 1 << (op - 65); if (n - i < (size_t)w) { r.end = n; return r; } c.lit = 1; c.len = be(d + i, w); i += w; r.litcb += 1 + w; }
        else if (op <= 84) { int w1 = 1 << ((op - 69) / 4), w2 = 1 << ((op - 69) % 4); if (n - i < (size_t)(w1 + w2)) { r.end = n; return r; } c.pos = be(d + i, w1); c.len = be(d + i + w1, w2); i += w1 + w2; r.copycb += 1 + w1 + w2; }
        else { r.res = P_CORRUPT; r.end = i; return r; }
        if ((s64)c.len <= 0 || (!c.lit && (s64)c.pos < 0)) { r.res = P_CORRUPT; r.end = i; return r; }
        c.dpos = i;
        if (c.lit) { r.litcmds++; r.litb += c.len; } else { r.copycmds++; r.copyb += c.len; }
        if (!(r.n & (r.n - 1))) r.c = realloc(r.c, (r.n ? r.n * 2 : 1) * sizeof *r.c);
        r.c[r.n++] = c;
        if (c.lit) { if (n - i < c.len) { r.end = n; return r; } i += c.len; }
    }
}
/* canonical: narrowest integers and one-byte literals (checked on valid deltas) */
static void check_canonical(const u8 *d, size_t n)
{
    size_t i = 4;
    if (n < 5 || be(d, 4) != M_DELTA) FAIL("delta does not start with its magic");
    for (;;) {
        if (i >= n) FAIL("delta lacks its end command");
        u8 op = d[i++];
        u64 v;
        if (op == 0) { if (i != n) FAIL("%zu bytes after the end command", n - i); return; }
#define NARROW(v, w) ((w) == ((v) < 0x100 ? 1 : (v) < 0x10000 ? 2 : (v) < 0x100000000ULL ? 4 : 8))
        if (op <= 64) i += op;
        else if (op <= 68) { int w = 1 << (op - 65); v = be(d + i, w); if (v <= 64 || !NARROW(v, w)) FAIL("literal of %llu bytes encoded in %d length bytes", (unsigned long long)v, w); i += w + v; }
        else if (op <= 84) { int w1 = 1 << ((op - 69) / 4), w2 = 1 << ((op - 69) % 4); u64 p = be(d + i, w1), l = be(d + i + w1, w2); if (!NARROW(p, w1) || !NARROW(l, w2)) FAIL("copy(%llu,%llu) encoded in widths %d,%d", (unsigned long long)p, (unsigned long long)l, w1, w2); i += w1 + w2; }
        else FAIL("reserved command %d in delta", op);
    }
}
/* apply to the basis; 0 if a copy leaves the basis */
static int apply(const u8 *d, const parsed *p, const vec *b, vec *o)
{
    for (size_t i = 0; i < p->n; i++)
        if (p->c[i].lit) v_put(o, d + p->c[i].dpos, p->c[i].len);
        else { if (p->c[i].pos > b->n || p->c[i].len > b->n - p->c[i].pos) return 0; v_put(o, b->p + p->c[i].pos, p->c[i].len); }
    return 1;
}

/* ---- basis callback ---- */
typedef struct { const vec *b; int own, shortr, fail_at, n; rs_result err; const cmd *c; size_t nc, i; u64 off; u8 *tmp; int strict; } basis;
static rs_result basis_cb(void *a, rs_long_t pos, size_t *len, void **buf)
{
    basis *B = a;
    size_t want = *len;
    if (want == 0) FAIL("basis callback asked for zero bytes");
    if (B->strict) {                /* must be the next owed range */
        while (B->i < B->nc && (B->c[B->i].lit || B->off == B->c[B->i].len)) { B->i++; B->off = 0; }
        if (B->i >= B->nc) FAIL("basis callback called with no copy outstanding");
        if ((u64)pos != B->c[B->i].pos + B->off || want > B->c[B->i].len - B->off)
            FAIL("basis callback asked for [%lld,+%zu) while [%llu,+%llu) is owed", (long long)pos, want, (unsigned long long)(B->c[B->i].pos + B->off), (unsigned long long)(B->c[B->i].len - B->off));
    }
    if (B->fail_at >= 0 && B->n++ == B->fail_at) return B->err;
    if (pos < 0 || (u64)pos >= B->b->n) return RS_INPUT_ENDED;
    if (want > B->b->n - (size_t)pos) want = B->b->n - (size_t)pos;
    if (B->shortr && want > 1) want = 1 + want / (2 + B->shortr);
    if (B->own) { free(B->tmp); B->tmp = malloc(want); memcpy(B->tmp, B->b->p + pos, want); *buf = B->tmp; }
    else memcpy(*buf, B->b->p + pos, want);
    *len = want;
    if (B->strict) B->off += want;
    return RS_DONE;
}

/* ---- operations ---- */
static vec do_sig(const vec *b, size_t bl, size_t sl, u32 magic, sched s, rs_stats_t *stats, rs_result *rr)
{
    vec o = {0};
    rs_job_t *j = rs_sig_begin(bl, sl, (rs_magic_number)magic);
    rs_result r = drive(j, b->p, b->n, &o, s, NULL);
    if (stats) *stats = *rs_job_statistics(j);
    rs_job_free(j);
    if (rr) *rr = r; else if (r) FAIL("signature job failed: %d", r);
    return o;
}
static rs_signature_t *do_load(const vec *sg, sched s, rs_result *rr, rs_stats_t *stats)
{
    vec o = {0};
    rs_signature_t *sig;
    rs_job_t *j = rs_loadsig_begin(&sig);
    rs_result r = drive(j, sg->p, sg->n, &o, s, NULL);
    if (o.n) FAIL("signature loading produced output");
    if (stats) *stats = *rs_job_statistics(j);
    rs_job_free(j);
    free(o.p);
    if (rr) *rr = r; else if (r) FAIL("signature load failed: %d", r);
    return sig;
}
static vec do_delta(rs_signature_t *sig, const vec *nw, sched s, rs_stats_t *stats)
{
    vec o = {0};
    size_t used;
    rs_job_t *j = rs_delta_begin(sig);
    rs_result r = drive(j, nw->p, nw->n, &o, s, &used);
    if (stats) *stats = *rs_job_statistics(j);
    rs_job_free(j);
    if (r) FAIL("delta job failed: %d", r);
    if (used != nw->n) FAIL("delta finished after consuming %zu of %zu input bytes", used, nw->n);
    return o;
}
static vec do_patch(const vec *d, basis *B, sched s, rs_result *rr, rs_stats_t *stats)
{
    vec o = {0};
    rs_job_t *j = rs_patch_begin(basis_cb, B);
    *rr = drive(j, d->p, d->n, &o, s, NULL);
    if (stats) *stats = *rs_job_statistics(j);
    rs_job_free(j);
    free(B->tmp);
    B->tmp = NULL;
    return o;
}
static void same(const char *what, const vec *a, const vec *b)
{
    if (a->n == b->n && !memcmp(a->p ? a->p : (u8 *)"", b->p ? b->p : (u8 *)"", a->n)) return;
    size_t i = 0;
    while (i < a->n && i < b->n && a->p[i] == b->p[i]) i++;
    hexdump("got", a->p, a->n);
    hexdump("expected", b->p, b->n);
    FAIL("%s differ: lengths %zu vs %zu, first difference at byte %zu", what, a->n, b->n, i);
}

/* reference scan: which bytes of new are copied (map[i]=1) when scanning greedily */
typedef struct { u32 w; u8 s[32]; size_t idx; } ent;
static int ecmp(const void *a, const void *b) { const ent *x = a, *y = b; return x->w < y->w ? -1 : x->w > y->w; }
static u8 *ref_map(const vec *sg, const vec *nw)
{
    u32 magic = (u32)be(sg->p, 4); size_t bl = be(sg->p + 4, 4), sl = be(sg->p + 8, 4), nb = (sg->n - 12) / (4 + sl);
    u8 *map = calloc(1, nw->n + 1);
    ent *E = malloc((nb + 1) * sizeof *E);
    for (size_t i = 0; i < nb; i++) { E[i].w = (u32)be(sg->p + 12 + i * (4 + sl), 4); memcpy(E[i].s, sg->p + 16 + i * (4 + sl), sl); E[i].idx = i; }
    qsort(E, nb, sizeof *E, ecmp);
    u32 pw = 1; u32 h = 1, s1 = 0, s2 = 0; size_t cur = 0; (void)pw;
    u32 M = 0x08104225u, mp = 1;
    for (size_t p = 0; nb && p < nw->n;) {
        size_t l = nw->n - p < bl ? nw->n - p : bl;
        if (cur == 0) { h = o_rk(nw->p + p, l); u32 rs = o_rollsum(nw->p + p, l); s1 = rs & 0xffff; s2 = rs >> 16; mp = 1; for (size_t i = 0; i < l; i++) mp *= M; cur = l; }
        u32 w = m_rk(magic) ? h : (s2 << 16 | s1);
        size_t lo = 0, hi = nb; int hit = 0, have = 0; u8 S[32];
        while (lo < hi) { size_t m = (lo + hi) / 2; if (E[m].w < w) lo = m + 1; else hi = m; }
        for (; lo < nb && E[lo].w == w && !hit; lo++) { if (!have) { o_strong(magic, nw->p + p, l, S); have = 1; } hit = !memcmp(S, E[lo].s, sl); }
        if (hit) { memset(map + p, 1, l); p += l; cur = 0; }
        else {
            u8 out = nw->p[p];
            if (p + cur < nw->n) { u8 in = nw->p[p + cur]; h = h * M + in - mp * (out + M - 1); s1 = (s1 + in - out) & 0xffff; s2 = (s2 + s1 - (u32)cur * (out + 31)) & 0xffff; }
            else { u32 inv = 0x98f009adu; mp *= inv; h -= mp * (out + M - 1); s1 = (s1 - out - 31) & 0xffff; s2 = (s2 - (u32)cur * (out + 31)) & 0xffff; cur--; }
            p++;
        }
    }
    free(E);
    return map;
}

/* ================= cases ================= */
static int BIGBL;
static void case_roundtrip(rng *r, int prop)
{
    vec b = gfile(r);
    if (BIGBL) { size_t n = 100000 + rb(r, 400000); b.p = realloc(b.p, n + 1); for (size_t i = b.n; i < n; i++) b.p[i] = (u8)rn(r); b.n = n; b.a = n + 1; }
    size_t bl = BIGBL ? 60000 + rb(r, 100000) : gbl(r); u32 magic = MAGICS[rb(r, 4)];
    if (b.n / bl > 6000) bl = b.n / 6000 + 1;
    size_t sl = prop == 1 ? 8 + rb(r, (u64)m_max(magic) - 7) : 1 + rb(r, (u64)m_max(magic));
    if (prop != 1 && chance(r, 60)) sl = (size_t)m_max(magic);
    vec nw = gderive(r, &b, bl);
    CTX("basis %zu bytes, new %zu bytes, block_len %zu, strong_len %zu, magic %08x; ", b.n, nw.n, bl, sl, magic);
    if (b.n + nw.n < 300) { for (size_t i = 0; i < b.n; i++) CTX("%02x", b.p[i]); CTX(" / "); for (size_t i = 0; i < nw.n; i++) CTX("%02x", nw.p[i]); }
    rs_stats_t ss, ls, ds, ps;
    /* defaults, asked for by zero (or -1 for the minimum strong length) */
    size_t abl = bl, asl = sl; u32 am = magic;
    if (prop != 2 && chance(r, 30)) {
        if (chance(r, 50)) { sl = (size_t)m_max(magic); asl = 0; }
        else if (chance(r, 40)) { sl = 12; asl = (size_t)-1; }
        if (chance(r, 30) && b.n / 2048 <= 6000) { bl = 2048; abl = 0; }
        if (magic == 0x72730147 && chance(r, 50)) am = 0;
        CTX("arguments block_len %zu strong_len %zd magic %x; ", abl, (ssize_t)asl, am);
    }
    vec sg = do_sig(&b, abl, asl, am, gsched(r), &ss, NULL), want = {0};
    o_sig(&want, magic, b.p, b.n, bl, (int)sl);
    if (prop == 3 || prop == 2) same("signature and its definition", &sg, &want);
    if (prop == 14 && (ss.sig_blocks != (rs_long_t)((b.n + bl - 1) / bl) || ss.block_len != bl)) FAIL("signature stats: %lld blocks of %zu", (long long)ss.sig_blocks, ss.block_len);
    rs_signature_t *sig = NULL;
    int noload = chance(r, 5);
    if (!noload) {
        sig = do_load(&sg, gsched(r), NULL, &ls);
        if (prop == 14 && (ls.sig_blocks != (rs_long_t)((b.n + bl - 1) / bl) || ls.block_len != bl)) FAIL("load stats: %lld blocks of %zu", (long long)ls.sig_blocks, ls.block_len);
        rs_result hr = rs_build_hash_table(sig);
        if (hr) FAIL("rs_build_hash_table: %d", hr);
    }
    vec d = do_delta(sig, &nw, gsched(r), &ds);
    parsed p = parse(d.p, d.n);
    if (p.res != P_OK || p.end != d.n) FAIL("delta does not parse: %d", p.res);
    vec ap = {0};
    int inb = apply(d.p, &p, &b, &ap);
    if (prop == 1 || prop == 2) { if (!inb) FAIL("delta copies outside the basis"); same("delta applied by the oracle and new file", &ap, &nw); }
    if (prop == 1 && noload && p.copycmds) FAIL("slack delta has copy commands");
    if (prop == 5) check_canonical(d.p, d.n);
    if (prop == 9 && sig) {
        u8 *m = ref_map(&sg, &nw);
        size_t o = 0;
        for (size_t i = 0; i < p.n; i++) for (u64 k = 0; k < p.c[i].len && o < nw.n; k++, o++)
            if (p.c[i].lit == m[o]) FAIL("byte %zu of the new file is sent as %s, expected %s", o, p.c[i].lit ? "literal" : "copy", m[o] ? "copy" : "literal");
        free(m);
        if (b.n == nw.n && b.n && !memcmp(b.p, nw.p, b.n) && p.litcmds) FAIL("identical file has literal data");
        if (sl >= 8) { if (!inb) FAIL("match outside the basis"); same("matched data and new file", &ap, &nw); }
    }
    if (prop == 14) {
        if ((u64)ds.lit_cmds != p.litcmds || (u64)ds.lit_bytes != p.litb || (u64)ds.lit_cmdbytes != p.litcb || (u64)ds.copy_cmds != p.copycmds || (u64)ds.copy_bytes != p.copyb || (u64)ds.copy_cmdbytes != p.copycb)
            FAIL("delta stats lit %d/%lld/%lld copy %lld/%lld/%lld but delta has lit %llu/%llu/%llu copy %llu/%llu/%llu", ds.lit_cmds, (long long)ds.lit_bytes, (long long)ds.lit_cmdbytes, (long long)ds.copy_cmds, (long long)ds.copy_bytes, (long long)ds.copy_cmdbytes, (unsigned long long)p.litcmds, (unsigned long long)p.litb, (unsigned long long)p.litcb, (unsigned long long)p.copycmds, (unsigned long long)p.copyb, (unsigned long long)p.copycb);
    }
    if (inb) {
        basis B = {&b, (int)rb(r, 2), (int)rb(r, 3), -1, 0, RS_DONE, p.c, p.n, 0, 0, NULL, prop == 6};
        rs_result rr;
        vec o = do_patch(&d, &B, gsched(r), &rr, &ps);
        if (rr) FAIL("patch failed: %d", rr);
        if (prop == 1 || prop == 2) same("patch output and new file", &o, &nw);
        else same("patch output and delta semantics", &o, &ap);
        if (prop == 14 && ((u64)ps.lit_cmds != p.litcmds || (u64)ps.lit_bytes != p.litb || (u64)ps.lit_cmdbytes != p.litcb || (u64)ps.copy_cmds != p.copycmds || (u64)ps.copy_bytes != p.copyb || (u64)ps.copy_cmdbytes != p.copycb))
            FAIL("patch stats disagree with the delta applied");
        free(o.p);
    }
    if (p.n > 1) st->nontriv++;
    if (sig) rs_free_sumset(sig);
    free(b.p); free(nw.p); free(sg.p); free(want.p); free(d.p); free(ap.p); free(p.c);
}
/* same job, two schedules, same output */
static void case_split(rng *r)
{
    vec b = gfile(r); size_t bl = gbl(r); u32 magic = MAGICS[rb(r, 4)];
    if (b.n / bl > 6000) bl = b.n / 6000 + 1;
    size_t sl = 8;
    vec nw = gderive(r, &b, bl);
    CTX("basis %zu new %zu block_len %zu magic %08x", b.n, nw.n, bl, magic);
    vec s1 = do_sig(&b, bl, sl, magic, whole_sched(), NULL, NULL), s2 = do_sig(&b, bl, sl, magic, gsched(r), NULL, NULL);
    same("signatures under two schedules", &s2, &s1);
    rs_signature_t *g1 = do_load(&s1, gsched(r), NULL, NULL);
    if (rs_build_hash_table(g1)) FAIL("hash table");
    vec d1 = do_delta(g1, &nw, whole_sched(), NULL), d2 = do_delta(g1, &nw, gsched(r), NULL);
    parsed p1 = parse(d1.p, d1.n), p2 = parse(d2.p, d2.n);
    vec a1 = {0}, a2 = {0};
    if (p1.res || p2.res || !apply(d1.p, &p1, &b, &a1) || !apply(d2.p, &p2, &b, &a2)) FAIL("delta invalid under some schedule: %d %d", p1.res, p2.res);
    same("deltas under two schedules, applied", &a2, &a1);
    if (p1.copyb != p2.copyb || p1.litb != p2.litb) FAIL("deltas under two schedules copy %llu vs %llu bytes", (unsigned long long)p1.copyb, (unsigned long long)p2.copyb);
    basis B1 = {&b, 0, 0, -1}, B2 = {&b, 1, 1, -1};
    rs_result r1, r2;
    vec o1 = do_patch(&d1, &B1, whole_sched(), &r1, NULL), o2 = do_patch(&d1, &B2, gsched(r), &r2, NULL);
    if (r1 != r2) FAIL("patch results %d vs %d", r1, r2);
    same("patch outputs under two schedules", &o2, &o1);
    same("patch output and new file", &o1, &nw);
    if (nw.n > 64) st->nontriv++;
    rs_free_sumset(g1);
    free(b.p); free(nw.p); free(s1.p); free(s2.p); free(d1.p); free(d2.p); free(p1.c); free(p2.c); free(a1.p); free(a2.p); free(o1.p); free(o2.p);
}
static void case_loadsig(rng *r)
{
    vec b = gfile(r); size_t bl = gbl(r); u32 magic = MAGICS[rb(r, 4)];
    if (b.n / bl > 1000) bl = b.n / 1000 + 1;
    size_t sl = 1 + rb(r, (u64)m_max(magic));
    vec sg = {0};
    o_sig(&sg, magic, b.p, b.n, bl, (int)sl);
    int k = (int)rb(r, 8);
    static const u32 odd[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 16, 17, 32, 33, 0x72730136, 0x72730138, 0x72730156, 0x72730236, 0x72730126, 0x72730135, 0x72730147, 100, 255, 256};
    if (k == 0) sg.n = rb(r, sg.n + 1);
    else if (k == 1) sg.n = rb(r, 17) < sg.n ? rb(r, sg.n < 17 ? sg.n + 1 : 17) : sg.n;
    else if (k == 2) { u32 v = chance(r, 70) ? odd[rb(r, 20)] : (u32)rn(r); int f = (int)rb(r, 3); for (int i = 0; i < 4; i++) sg.p[4 * f + i] = (u8)(v >> (24 - 8 * i)); }
    else if (k == 3) { size_t e = rb(r, 40); u8 *t = malloc(e + 1); gfill(r, t, e); v_put(&sg, t, e); free(t); }
    /* oracle */
    rs_result exp = RS_DONE;
    u32 em = 0, ebl = 0, esl = 0;
    if (sg.n < 4) exp = RS_INPUT_ENDED;
    else {
        em = (u32)be(sg.p, 4);
        int okm = em == MAGICS[0] || em == MAGICS[1] || em == MAGICS[2] || em == MAGICS[3];
        ebl = sg.n >= 8 ? (u32)be(sg.p + 4, 4) : 0; esl = sg.n >= 12 ? (u32)be(sg.p + 8, 4) : 0;
        if (!okm) exp = RS_BAD_MAGIC;
        else if (sg.n < 8) exp = RS_INPUT_ENDED;
        else if ((int)ebl < 1) exp = RS_CORRUPT;
        else if (sg.n < 12) exp = RS_INPUT_ENDED;
        else if ((int)esl < 1 || (int)esl > 32) exp = RS_CORRUPT;
        else if ((int)esl > m_max(em)) exp = RS_PARAM_ERROR;
        else if ((sg.n - 12) % (4 + esl)) exp = RS_INPUT_ENDED;
    }
    CTX("signature of %zu bytes magic %08x block_len %08x strong_len %08x (variant %d)", sg.n, em, ebl, esl, k);
    rs_result rr; rs_stats_t ls;
    rs_signature_t *sig = do_load(&sg, gsched(r), &rr, &ls);
    /* any rejection is acceptable where several apply; success never */
    if ((exp == RS_DONE) != (rr == RS_DONE)) FAIL("load result %d, expected %d", rr, exp);
    if (exp == RS_BAD_MAGIC && sg.n >= 12 && (int)ebl >= 1 && (int)esl >= 1 && (int)esl <= 32 && rr != RS_BAD_MAGIC) FAIL("bad magic reported as %d", rr);
    if (exp == RS_CORRUPT && rr != RS_CORRUPT && rr != RS_PARAM_ERROR) FAIL("bad header value reported as %d", rr);
    if (exp == RS_PARAM_ERROR && rr != RS_PARAM_ERROR && rr != RS_CORRUPT) FAIL("too large strong length reported as %d", rr);
    if (exp == RS_INPUT_ENDED && rr != RS_INPUT_ENDED) FAIL("truncated signature reported as %d", rr);
    if (rr == RS_DONE) {
        size_t nb = (sg.n - 12) / (4 + esl);
        if (ls.sig_blocks != (rs_long_t)nb || ls.block_len != ebl) FAIL("loaded %lld blocks of %zu, expected %zu of %u", (long long)ls.sig_blocks, ls.block_len, nb, ebl);
        /* behaviour of the loaded signature: it matches exactly the encoded sums */
        if (rs_build_hash_table(sig)) FAIL("hash table");
        if (ebl < 100000) {
            vec nw = gderive(r, &b, bl);
            vec d = do_delta(sig, &nw, whole_sched(), NULL);
            parsed p = parse(d.p, d.n);
            u8 *m = ref_map(&sg, &nw);
            size_t o = 0;
            for (size_t i = 0; i < p.n; i++) {
                if (!p.c[i].lit) for (u64 k2 = 0; k2 < p.c[i].len; k2 += ebl) {
                    size_t bi = (p.c[i].pos + k2) / ebl; u8 S[32]; size_t l = p.c[i].len - k2 < ebl ? p.c[i].len - k2 : ebl;
                    if ((p.c[i].pos + k2) % ebl || bi >= nb) FAIL("copy does not start at a loaded block");
                    o_strong(em, nw.p + o + k2, l, S);
                    if (be(sg.p + 12 + bi * (4 + esl), 4) != o_weak(em, nw.p + o + k2, l) || memcmp(S, sg.p + 16 + bi * (4 + esl), esl)) FAIL("copy of block %zu whose loaded sums do not match the data", bi);
                }
                for (u64 k2 = 0; k2 < p.c[i].len && o < nw.n; k2++, o++) if (p.c[i].lit == m[o]) FAIL("loaded signature: byte %zu sent as %s", o, p.c[i].lit ? "literal" : "copy");
            }
            free(m); free(p.c); free(d.p); free(nw.p);
        }
        if (nb) st->nontriv++;
    }
    rs_free_sumset(sig);
    free(b.p); free(sg.p);
}
/* arbitrary deltas */
static void case_patch(rng *r, int prop)
{
    vec b = gfile(r), d = {0};
    int n = (int)rb(r, 12), bad = (int)rb(r, 10);
    v_be(&d, M_DELTA, 4);
    for (int i = 0; i < n; i++) {
        if (chance(r, 50)) {
            size_t l = chance(r, 60) ? 1 + rb(r, 70) : chance(r, 70) ? rb(r, 400) : rb(r, 70000);
            int w = (int)rb(r, 5); u8 op;
            if (w == 0) { l = 1 + l % 64; op = (u8)l; v_put(&d, &op, 1); }
            else { w--; if (w == 0 && l > 255) l &= 255; if (w == 1 && l > 65535) l &= 65535; op = (u8)(65 + w); v_put(&d, &op, 1); v_be(&d, l, 1 << w); }
            u8 *t = malloc(l + 1); gfill(r, t, l); v_put(&d, t, l); free(t);
        } else {
            u64 p = b.n ? rb(r, b.n) : 0, l = b.n ? 1 + rb(r, b.n - p) : 1;
            if (chance(r, 5)) p = rn(r) >> rb(r, 64);
            if (chance(r, 5)) l = rn(r) >> rb(r, 64);
            int w1 = 3, w2 = 3;
            while (w1 > 0 && chance(r, 70) && p < (1ULL << (8 << (w1 - 1)))) w1--;
            while (w2 > 0 && chance(r, 70) && l < (1ULL << (8 << (w2 - 1)))) w2--;
            u8 op = (u8)(69 + 4 * w1 + w2);
            v_put(&d, &op, 1); v_be(&d, p, 1 << w1); v_be(&d, l, 1 << w2);
        }
    }
    if (bad != 1) { u8 z = 0; v_put(&d, &z, 1); }
    if (bad == 2) { u8 t[8]; gfill(r, t, 8); v_put(&d, t, 1 + rb(r, 8)); }      /* trailing garbage */
    if (bad == 3) d.n = rb(r, d.n);
    if (bad == 4) d.p[rb(r, d.n)] = (u8)rn(r);
    if (bad == 5) d.p[rb(r, d.n < 40 ? d.n : 40)] = (u8)rn(r);
    if (bad == 6) { d.n -= 1; u8 op = (u8)(85 + rb(r, 171)); v_put(&d, &op, 1); u8 t[20] = {0}; v_put(&d, t, 20); }
    if (bad == 7) { d.n -= 1; u8 op = (u8)(65 + rb(r, 20)); v_put(&d, &op, 1); u8 t[16]; memset(t, chance(r, 50) ? 0 : 0xff, 16); if (chance(r, 50)) t[rb(r, 16)] = (u8)rn(r); v_put(&d, t, 16); u8 z = 0; v_put(&d, &z, 1); }
    if (bad == 8 && d.n > 4) { d.p[rb(r, 4)] ^= (u8)(1u << rb(r, 8)); }
    parsed p = parse(d.p, d.n);
    /* expected: interpret until an error, literal data possibly cut short */
    vec want = {0};
    rs_result exp = p.res == P_OK ? RS_DONE : p.res == P_MAGIC ? RS_BAD_MAGIC : p.res == P_CORRUPT ? RS_CORRUPT : RS_INPUT_ENDED;
    int failcb = chance(r, 10) ? (int)rb(r, 4) : -1;
    static const rs_result errs[] = {RS_IO_ERROR, RS_MEM_ERROR, RS_INPUT_ENDED, RS_CORRUPT, RS_UNIMPLEMENTED, RS_PARAM_ERROR, RS_INTERNAL_ERROR};
    rs_result cberr = errs[rb(r, 7)];
    int open_end = 0;
    for (size_t i = 0; i < p.n; i++) {
        if (p.c[i].lit) { size_t l = d.n - p.c[i].dpos < p.c[i].len ? d.n - p.c[i].dpos : (size_t)p.c[i].len; v_put(&want, d.p + p.c[i].dpos, l); }
        else {
            if (p.c[i].pos >= b.n || p.c[i].len > b.n - p.c[i].pos) { if (p.c[i].pos < b.n) v_put(&want, b.p + p.c[i].pos, b.n - p.c[i].pos); exp = RS_INPUT_ENDED; break; }
            v_put(&want, b.p + p.c[i].pos, p.c[i].len);
        }
    }
    basis B = {&b, (int)rb(r, 2), (int)rb(r, 3), failcb, 0, cberr, p.c, p.n, 0, 0, NULL, 1};
    CTX("delta %zu bytes, basis %zu bytes, variant %d, %zu commands, parse result %d, callback error at %d: ", d.n, b.n, bad, p.n, p.res, failcb);
    for (size_t i = 0; i < d.n && i < 200; i++) CTX("%02x", d.p[i]);
    rs_result rr;
    rs_stats_t ps;
    vec o = do_patch(&d, &B, gsched(r), &rr, &ps);
    if (failcb >= 0 && B.n > failcb) {
        if (rr != cberr) FAIL("callback error %d reported as %d", cberr, rr);
        open_end = 1;
    } else if (rr != exp) FAIL("patch result %d, expected %d", rr, exp);
    if (o.n > want.n || memcmp(o.p ? o.p : (u8 *)"", want.p ? want.p : (u8 *)"", o.n)) { want.n = o.n < want.n ? o.n : want.n; same("patch output and delta semantics", &o, &want); FAIL("too much output"); }
    if (!open_end && exp != RS_CORRUPT && o.n != want.n) FAIL("patch delivered %zu of %zu bytes (result %d)", o.n, want.n, rr);
    if (rr == RS_DONE && prop == 14 && ((u64)ps.lit_cmds != p.litcmds || (u64)ps.lit_bytes != p.litb || (u64)ps.lit_cmdbytes != p.litcb || (u64)ps.copy_cmds != p.copycmds || (u64)ps.copy_bytes != p.copyb || (u64)ps.copy_cmdbytes != p.copycb)) FAIL("patch stats disagree with the delta applied");
    if (p.n) st->nontriv++;
    free(b.p); free(d.p); free(want.p); free(o.p); free(p.c);
}
/* large values: 8-byte positions and lengths reach the callback intact */
typedef struct { u64 pos; size_t len; int calls; } rec;
static rs_result rec_cb(void *a, rs_long_t pos, size_t *len, void **buf)
{
    rec *R = a;
    R->calls++; R->pos = (u64)pos; R->len = *len;
    memset(*buf, 7, *len);
    return R->calls > 3 ? RS_IO_ERROR : RS_DONE;
}
static void case_bigcopy(rng *r)
{
    u64 pos = rn(r) >> (1 + rb(r, 63)), len = rn(r) >> (1 + rb(r, 63));
    if (chance(r, 30)) pos = (1ULL << (8 * (1 + rb(r, 7)))) - rb(r, 2);
    if (chance(r, 30)) len = (1ULL << (8 * (1 + rb(r, 7)))) - rb(r, 2);
    if (!len) len = 1;
    if (pos > INT64_MAX - len) pos = 0;
    int w1 = pos < 256 ? 0 : pos < 65536 ? 1 : pos < 1ULL << 32 ? 2 : 3, w2 = len < 256 ? 0 : len < 65536 ? 1 : len < 1ULL << 32 ? 2 : 3;
    vec d = {0}, o = {0};
    v_be(&d, M_DELTA, 4); v_be(&d, (u64)(69 + 4 * w1 + w2), 1); v_be(&d, pos, 1 << w1); v_be(&d, len, 1 << w2); v_be(&d, 0, 1);
    rec R = {0};
    rs_job_t *j = rs_patch_begin(rec_cb, &R);
    size_t oc = 1 + rb(r, 5000);
    char *ob = malloc(oc);
    rs_buffers_t b = {0};
    b.next_in = (char *)d.p; b.avail_in = d.n; b.eof_in = 1; b.next_out = ob; b.avail_out = oc;
    CTX("copy(%llu,%llu) with %zu bytes of output space", (unsigned long long)pos, (unsigned long long)len, oc);
    rs_result rr = rs_job_iter(j, &b);
    if (R.calls != 1 || R.pos != pos || R.len != (len < oc ? len : oc)) FAIL("callback got %d calls, last [%llu,+%zu)", R.calls, (unsigned long long)R.pos, R.len);
    if (len <= oc ? rr != RS_DONE : rr != RS_BLOCKED) FAIL("result %d", rr);
    if (len > oc) {
        b.next_out = ob; b.avail_out = oc;
        rs_job_iter(j, &b);
        u64 left = len - oc;
        if (R.calls != 2 || R.pos != pos + oc || R.len != (left < oc ? left : oc)) FAIL("second request [%llu,+%zu)", (unsigned long long)R.pos, R.len);
    }
    st->nontriv++;
    rs_job_free(j);
    free(ob); free(d.p); free(o.p);
}
static void case_bigslack(void)
{
    size_t n = ((size_t)1 << 31) + 100;
    char *m = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return;
    char ob[64];
    rs_job_t *j = rs_delta_begin(NULL);
    rs_buffers_t b = {0};
    b.next_in = m; b.avail_in = n; b.eof_in = 1; b.next_out = ob; b.avail_out = sizeof ob;
    CTX("slack delta with a %zu byte input buffer", n);
    rs_result rr = rs_job_iter(j, &b);
    u8 *q = (u8 *)ob;
    if (rr != RS_BLOCKED || be(q, 4) != M_DELTA || q[4] != 0x43 || be(q + 5, 4) == 0 || be(q + 5, 4) > n) FAIL("literal command %02x length %llu, result %d", q[4], (unsigned long long)be(q + 5, 4), rr);
    const rs_stats_t *s = rs_job_statistics(j);
    if ((u64)s->lit_bytes != be(q + 5, 4)) FAIL("literal length %llu but stats say %lld", (unsigned long long)be(q + 5, 4), (long long)s->lit_bytes);
    rs_job_free(j);
    munmap(m, n);
}
/* empty end-of-input and tiny inputs with every protocol corner */
static void case_progress(rng *r)
{
    int kind = (int)rb(r, 4);
    if (kind == 0) { case_roundtrip(r, 1); return; }
    if (kind == 1) { case_patch(r, 6); return; }
    if (kind == 2) { case_loadsig(r); return; }
    case_split(r);
}
/* junk into every parser */
static void case_junk(rng *r)
{
    int kind = (int)rb(r, 5);
    if (kind == 0) case_roundtrip(r, 1);
    else if (kind == 1) case_patch(r, 6);
    else if (kind == 2) case_loadsig(r);
    else {
        vec v = gfile(r), b = gfile(r);
        if (v.n > 4 && chance(r, 80)) { u32 m = kind == 3 ? M_DELTA : MAGICS[rb(r, 4)]; for (int i = 0; i < 4; i++) v.p[i] = (u8)(m >> (24 - 8 * i)); }
        CTX("junk of %zu bytes", v.n);
        rs_result rr;
        if (kind == 3) { basis B = {&b, 0, 0, -1}; vec o = do_patch(&v, &B, gsched(r), &rr, NULL); free(o.p); }
        else {
            rs_signature_t *s = do_load(&v, gsched(r), &rr, NULL);
            if (!rr) { if (!rs_build_hash_table(s)) { vec d = do_delta(s, &b, gsched(r), NULL); free(d.p); } }
            rs_free_sumset(s);
        }
        free(v.p); free(b.p);
        st->nontriv++;
    }
}
/* ---- parameters ---- */
static u64 isqrt64(u64 v) { u64 n = 0; for (int b = 31; b >= 0; b--) { u64 t = n | 1ULL << b; if ((unsigned __int128)t * t <= v) n = t; } return n; }
static int lg(u64 v) { int n = 0; while (v >>= 1) n++; return n; }
static void case_args(rng *r)
{
    rs_long_t fs = (rs_long_t)(rn(r) >> (2 + rb(r, 62)));
    if (chance(r, 20)) fs = -1;
    else if (chance(r, 10)) fs = -(rs_long_t)rb(r, 1ULL << 40);
    else if (chance(r, 30)) { u64 q = rb(r, 1ULL << (1 + rb(r, 30))); fs = (rs_long_t)(q * q) - 1 + (rs_long_t)rb(r, 3); if (fs < 0) fs = 0; }
    else if (chance(r, 20)) fs = 65536 - 2 + (rs_long_t)rb(r, 5);
    else if (chance(r, 20)) { u64 q = 128 * rb(r, 1 << 20); fs = (rs_long_t)(q * q) - 1 + (rs_long_t)rb(r, 3); if (fs < 0) fs = 0; }
    static const u32 mm[] = {0, 0x72730136, 0x72730137, 0x72730146, 0x72730147, 0x72730236, 0x72730156, 1, 0x72730138, 0x72730135, 0x72730127};
    u32 m0 = chance(r, 95) ? mm[rb(r, chance(r, 80) ? 5 : 11)] : (u32)rn(r);
    size_t bl0 = chance(r, 40) ? 0 : chance(r, 50) ? 1 + rb(r, 300) : 1 + (rn(r) >> (33 + rb(r, 31)));
    if (chance(r, 2)) bl0 = (size_t)INT32_MAX + rb(r, 3);
    if (chance(r, 1)) bl0 = (size_t)rn(r);
    size_t sl0 = chance(r, 30) ? 0 : chance(r, 40) ? (size_t)-1 : rb(r, 40);
    if (chance(r, 2)) sl0 = (size_t)rn(r);
    rs_magic_number m = (rs_magic_number)m0;
    size_t bl = bl0, sl = sl0;
    CTX("rs_sig_args(%lld, %#x, %zu, %zu)", (long long)fs, m0, bl0, sl0);
    rs_result rr = rs_sig_args(fs, &m, &bl, &sl), exp = RS_DONE;
    u32 em = m0 ? m0 : 0x72730147;
    int ok = em == MAGICS[0] || em == MAGICS[1] || em == MAGICS[2] || em == MAGICS[3];
    size_t ebl = bl0, esl = sl0, mx = (size_t)m_max(em), mn;
    if (!ok) exp = RS_BAD_MAGIC;
    else {
        if (!ebl) ebl = fs < 0 ? 2048 : fs <= 65536 ? 256 : (size_t)(isqrt64((u64)fs) & ~127ULL);
        mn = fs < 0 ? 12 : (size_t)(2 + (lg((u64)fs + (1 << 24)) + lg((u64)fs / ebl + 1) + 7) / 8);
        if (mn > mx) mn = mx;
        if (sl0 == 0) esl = mx; else if (sl0 == (size_t)-1) esl = mn; else if (sl0 > mx) exp = RS_PARAM_ERROR;
        if (ebl > INT32_MAX) exp = RS_PARAM_ERROR;
    }
    if (rr != exp) FAIL("result %d expected %d", rr, exp);
    if (rr == RS_DONE && ((u32)m != em || bl != ebl || sl != esl)) FAIL("got magic %x block_len %zu strong_len %zu, expected %x %zu %zu", m, bl, sl, em, ebl, esl);
    if (rr == RS_DONE && chance(r, 20)) { /* usable: header says the same */
        vec b = {0}; rs_result q; vec s = do_sig(&b, bl, sl, (u32)m, whole_sched(), NULL, &q);
        if (q || s.n != 12 || be(s.p, 4) != (u32)m || be(s.p + 4, 4) != bl || be(s.p + 8, 4) != sl) FAIL("accepted parameters do not start a signature: %d", q);
        free(s.p); st->nontriv++;
    }
}
/* ---- hashes ---- */
static void case_hash(rng *r)
{
    size_t n = chance(r, 50) ? rb(r, 300) : chance(r, 80) ? rb(r, 3000) : rb(r, 300000), off = rb(r, 8);
    u8 *p = malloc(n + off + 1), a[64], e[64];
    gfill(r, p, n + off);
    CTX("message of %zu bytes at alignment %zu", n, off);
    o_md4(p + off, n, e);
    rs_mdfour(a, p + off, n);
    if (memcmp(a, e, 16)) FAIL("MD4 of the whole message differs");
    u8 *md_ = calloc(1, 4096);   /* opaque accumulator */
    rs_mdfour_t *md = (rs_mdfour_t *)md_;
    rs_mdfour_begin(md);
    for (size_t i = 0; i < n;) { size_t l = chance(r, 30) ? rb(r, 3) : chance(r, 50) ? rb(r, 140) : 64 * rb(r, 4); if (l > n - i) l = n - i; u8 *t = malloc(l + 1); size_t sh = rb(r, 2); (void)sh; memcpy(t, p + off + i, l); rs_mdfour_update(md, t, l); free(t); i += l; }
    rs_mdfour_result(md, a);
    if (memcmp(a, e, 16)) FAIL("MD4 of the split message differs");
    free(md_);
    if (n > 64) st->nontriv++;
    /* both hashes through a one-block signature */
    if (n && n < 20000) for (int k = 0; k < 2; k++) {
        u32 m = MAGICS[2 + k]; vec b = {p + off, n, n}, w = {0};
        vec s = do_sig(&b, n, (size_t)m_max(m), m, whole_sched(), NULL, NULL);
        o_sig(&w, m, p + off, n, n, m_max(m));
        same(k ? "BLAKE2b signature" : "MD4 signature", &s, &w);
        free(s.p); free(w.p);
    }
    free(p);
}
/* ---- codecs ---- */
static void case_codec(rng *r)
{
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    size_t n = chance(r, 70) ? rb(r, 20) : rb(r, 2000);
    u8 *p = malloc(n + 1);
    gfill(r, p, n);
    char *h = malloc(2 * n + 1), *eh = malloc(2 * n + 2);
    CTX("%zu bytes", n);
    rs_hexify(h, p, (int)n);
    for (size_t i = 0; i < n; i++) sprintf(eh + 2 * i, "%02x", p[i]);
    eh[2 * n] = 0;
    if (strcmp(h, eh)) FAIL("hexify gave %.60s", h);
    size_t el = (n * 8 + 5) / 6;
    char *b = malloc(el + 1), *eb = malloc(el + 1);
    rs_base64(p, (int)n, b);
    for (size_t i = 0; i < el; i++) { unsigned v = 0; for (int k = 0; k < 6; k++) { size_t bit = i * 6 + k; v = v << 1 | (bit / 8 < n ? (p[bit / 8] >> (7 - bit % 8)) & 1 : 0); } eb[i] = A[v]; }
    eb[el] = 0;
    if (memcmp(b, eb, el + 1)) FAIL("base64 gave %.60s expected %.60s", b, eb);
    size_t tail = chance(r, 40) ? 1 + rb(r, 5) : 0;
    char *x = malloc(el + tail + 1);
    memcpy(x, b, el + 1);
    if (tail) { x[el] = "=-_ \n.\200\377"[rb(r, 8)]; for (size_t i = 1; i < tail; i++) x[el + i] = A[rb(r, 64)]; x[el + tail] = 0; }
    size_t got = rs_unbase64(x);
    if (got != n || memcmp(x, p, n)) FAIL("unbase64 returned %zu bytes of %zu", got, n);
    st->nontriv += n > 0;
    free(p); free(h); free(eh); free(b); free(eb); free(x);
}
/* ---- statistics text ---- */
static void case_fmt(rng *r)
{
    static const char *ops[] = {"delta", "patch", "signature", "loadsig", NULL};
    rs_stats_t s;
    memset(&s, 0, sizeof s);
    s.op = ops[rb(r, 5)];
#define RV() (chance(r, 30) ? 0 : (rs_long_t)(rn(r) >> rb(r, 63)) )
    s.lit_cmds = (int)RV(); s.lit_bytes = RV(); s.lit_cmdbytes = RV(); s.copy_cmds = RV(); s.copy_bytes = RV(); s.copy_cmdbytes = RV();
    s.sig_cmds = RV(); s.sig_bytes = RV(); s.false_matches = (int)RV(); s.sig_blocks = RV(); s.block_len = (size_t)RV(); s.in_bytes = RV(); s.out_bytes = RV();
    s.start = 1000; s.end = 1000 + (time_t)rb(r, 100);
    size_t n = 1 + (chance(r, 70) ? rb(r, 400) : rb(r, 1000));
    char *b = malloc(n), big[2000];
    memset(b, 'Z', n);
    CTX("format into %zu bytes", n);
    rs_format_stats(&s, b, n);
    if (!memchr(b, 0, n)) FAIL("statistics text not terminated");
    rs_format_stats(&s, big, sizeof big);
    if (strncmp(b, big, strlen(b))) FAIL("text is not a prefix of the full text");
    char want[200];
    if (s.lit_cmds) { snprintf(want, sizeof want, "literal[%d cmds, %lld bytes, %lld cmdbytes]", s.lit_cmds, (long long)s.lit_bytes, (long long)s.lit_cmdbytes); if (!strstr(big, want)) FAIL("text lacks \"%s\": %s", want, big); }
    if (s.copy_cmds) { snprintf(want, sizeof want, "copy[%lld cmds, %lld bytes, %lld cmdbytes, %d false]", (long long)s.copy_cmds, (long long)s.copy_bytes, (long long)s.copy_cmdbytes, s.false_matches); if (!strstr(big, want)) FAIL("text lacks \"%s\": %s", want, big); }
    if (s.sig_blocks) { snprintf(want, sizeof want, "signature[%lld blocks, %zu bytes per block]", (long long)s.sig_blocks, s.block_len); if (!strstr(big, want)) FAIL("text lacks \"%s\": %s", want, big); }
    free(b);
    st->nontriv++;
}
/* ---- whole-file drivers with injected faults ---- */
typedef struct { vec v; size_t pos; s64 fail; int maxio; int hit; int w; rng r; } cook;
static ssize_t c_read(void *a, char *b, size_t n)
{
    cook *c = a;
    if (c->fail >= 0 && c->pos >= (u64)c->fail) { c->hit = 1; errno = EIO; return -1; }
    if (c->maxio && n > (size_t)c->maxio) n = 1 + rb(&c->r, (u64)c->maxio);
    if (c->pos >= c->v.n) return 0;
    if (n > c->v.n - c->pos) n = c->v.n - c->pos;
    if (c->fail >= 0 && n > (u64)c->fail - c->pos) n = (size_t)((u64)c->fail - c->pos);
    memcpy(b, c->v.p + c->pos, n);
    c->pos += n;
    return (ssize_t)n;
}
static ssize_t c_write(void *a, const char *b, size_t n)
{
    cook *c = a;
    if (c->fail >= 0 && c->v.n + n > (u64)c->fail) { size_t k = (size_t)c->fail > c->v.n ? (size_t)c->fail - c->v.n : 0; v_put(&c->v, b, k); c->hit = 1; errno = ENOSPC; return (ssize_t)(k ? k : 0); }
    v_put(&c->v, b, n);
    return (ssize_t)n;
}
static int c_seek(void *a, off64_t *o, int wh)
{
    cook *c = a;
    if (c->fail == -2) { c->hit = 1; errno = EINVAL; return -1; }
    if (wh == SEEK_SET) { if (*o < 0) { errno = EINVAL; return -1; } c->pos = (size_t)*o; }
    else if (wh == SEEK_CUR) c->pos += (size_t)*o; else c->pos = c->v.n + (size_t)*o;
    *o = (off64_t)c->pos;
    return 0;
}
static FILE *copen(cook *c, int w, rng *r)
{
    cookie_io_functions_t f = {w ? NULL : c_read, w ? c_write : NULL, c_seek, NULL};
    c->r.s = rn(r);
    FILE *F = fopencookie(c, w ? "wb" : "rb", f);
    int k = (int)rb(r, 3);
    if (k == 0) setvbuf(F, NULL, _IONBF, 0);
    else if (k == 1) setvbuf(F, NULL, _IOFBF, 1 + rb(r, 300));
    return F;
}
static void case_whole(rng *r, int prop)
{
    vec b = gfile(r); size_t bl = gbl(r); u32 magic = MAGICS[rb(r, 4)];
    if (b.n / bl > 4000) bl = b.n / 4000 + 1;
    size_t sl = 8 + rb(r, 9);
    vec nw = gderive(r, &b, bl), wsig = {0};
    o_sig(&wsig, magic, b.p, b.n, bl, (int)sl);
    int fault = prop == 13 ? (int)rb(r, 8) : 0;
    rs_inbuflen = chance(r, 50) ? 0 : 1 + (int)rb(r, chance(r, 50) ? 10 : 5000);
    rs_outbuflen = chance(r, 50) ? 0 : 1 + (int)rb(r, chance(r, 50) ? 10 : 5000);
    CTX("basis %zu new %zu block_len %zu strong_len %zu magic %08x inbuf %d outbuf %d fault %d; ", b.n, nw.n, bl, sl, magic, rs_inbuflen, rs_outbuflen, fault);
    /* signature */
    rs_stats_t ss, ls, ds, ps;
    cook ci = {b, 0, -1, (int)rb(r, 3) ? 0 : 100, 0, 0, {0}}, co = {{0}, 0, -1, 0, 0, 1, {0}};
    if (fault == 1) ci.fail = (s64)rb(r, b.n + 1);
    if (fault == 2) co.fail = (s64)rb(r, wsig.n);
    FILE *fi = copen(&ci, 0, r), *fo = copen(&co, 1, r);
    rs_result rr = rs_sig_file(fi, fo, bl, sl, (rs_magic_number)magic, &ss);
    int hit = ci.hit || co.hit;
    fclose(fi); fclose(fo);
    if (fault == 1 || fault == 2) {
        if (hit && rr != RS_IO_ERROR) FAIL("rs_sig_file: I/O error reported as %d (in fail %lld, out fail %lld)", rr, (long long)ci.fail, (long long)co.fail);
        if (fault == 2 && rr == RS_DONE) FAIL("rs_sig_file: failed write at %lld not reported", (long long)co.fail);
        if (fault == 1 && rr == RS_DONE) FAIL("rs_sig_file: failed read at %lld not reported", (long long)ci.fail);
        st->nontriv++;
        goto out;
    }
    if (rr) FAIL("rs_sig_file: %d", rr);
    same("rs_sig_file output and signature", &co.v, &wsig);
    if (prop == 14 && (ss.in_bytes != (rs_long_t)b.n || ss.out_bytes != (rs_long_t)wsig.n)) FAIL("sig stats in %lld out %lld, expected %zu %zu", (long long)ss.in_bytes, (long long)ss.out_bytes, b.n, wsig.n);
    /* load */
    cook cs = {wsig, 0, -1, (int)rb(r, 3) ? 0 : 100, 0, 0, {0}};
    if (fault == 3) cs.fail = (s64)rb(r, wsig.n + 1);
    FILE *fs = copen(&cs, 0, r);
    rs_signature_t *sig;
    rr = rs_loadsig_file(fs, &sig, &ls);
    fclose(fs);
    if (fault == 3) { if (rr != RS_IO_ERROR) FAIL("rs_loadsig_file: read error at %lld reported as %d", (long long)cs.fail, rr); rs_free_sumset(sig); st->nontriv++; goto out; }
    if (rr) FAIL("rs_loadsig_file: %d", rr);
    if (prop == 14 && ls.in_bytes != (rs_long_t)wsig.n) FAIL("load stats in %lld", (long long)ls.in_bytes);
    if (rs_build_hash_table(sig)) FAIL("hash");
    /* delta */
    cook cn = {nw, 0, -1, (int)rb(r, 3) ? 0 : 100, 0, 0, {0}}, cd = {{0}, 0, -1, 0, 0, 1, {0}};
    if (fault == 4) cn.fail = (s64)rb(r, nw.n + 1);
    if (fault == 5) cd.fail = (s64)rb(r, 5 + nw.n / 2);
    FILE *fn = copen(&cn, 0, r), *fd = copen(&cd, 1, r);
    rr = rs_delta_file(sig, fn, fd, &ds);
    int dhit = cn.hit || cd.hit;
    fclose(fn); fclose(fd);
    rs_free_sumset(sig);
    if (dhit || cn.fail >= 0) { if (rr != RS_IO_ERROR) FAIL("rs_delta_file: I/O error reported as %d (read fail %lld, write fail %lld)", rr, (long long)cn.fail, (long long)cd.fail); free(cd.v.p); st->nontriv++; goto out; }
    if (rr) FAIL("rs_delta_file: %d", rr);
    parsed p = parse(cd.v.p, cd.v.n);
    vec ap = {0};
    if (p.res || !apply(cd.v.p, &p, &b, &ap)) FAIL("rs_delta_file: bad delta %d", p.res);
    same("rs_delta_file applied and new file", &ap, &nw);
    if (prop == 14 && (ds.in_bytes != (rs_long_t)nw.n || ds.out_bytes != (rs_long_t)cd.v.n)) FAIL("delta stats in %lld out %lld, expected %zu %zu", (long long)ds.in_bytes, (long long)ds.out_bytes, nw.n, cd.v.n);
    /* patch */
    vec bb = b;
    int shortb = fault == 7 && p.copycmds && chance(r, 50);
    if (shortb) { u64 mx = 0; for (size_t i = 0; i < p.n; i++) if (!p.c[i].lit && p.c[i].pos + p.c[i].len > mx) mx = p.c[i].pos + p.c[i].len; bb.n = rb(r, mx); }
    cook cb = {bb, 0, -1, 0, 0, 0, {0}}, cdd = {cd.v, 0, -1, (int)rb(r, 3) ? 0 : 100, 0, 0, {0}}, cw = {{0}, 0, -1, 0, 0, 1, {0}};
    if (fault == 6) cw.fail = nw.n ? (s64)rb(r, nw.n) : -1;
    if (fault == 7 && !shortb) { if (p.copycmds && chance(r, 50)) cb.fail = -2; else if (chance(r, 30) && p.copycmds) cb.fail = (s64)p.c[0].pos; else cdd.fail = (s64)rb(r, cd.v.n); }
    FILE *fb = copen(&cb, 0, r), *fdd = copen(&cdd, 0, r), *fw = copen(&cw, 1, r);
    rr = rs_patch_file(fb, fdd, fw, &ps);
    int phit = cb.hit || cdd.hit || cw.hit;
    fclose(fb); fclose(fdd); fclose(fw);
    if (shortb) { if (rr != RS_INPUT_ENDED) FAIL("rs_patch_file: short basis reported as %d", rr); }
    else if (phit || cw.fail >= 0) { if (rr != RS_IO_ERROR) FAIL("rs_patch_file: I/O error reported as %d (basis %lld delta %lld new %lld)", rr, (long long)cb.fail, (long long)cdd.fail, (long long)cw.fail); }
    else {
        if (rr) FAIL("rs_patch_file: %d", rr);
        same("rs_patch_file output and new file", &cw.v, &nw);
        if (prop == 14 && (ps.in_bytes != (rs_long_t)cd.v.n || ps.out_bytes != (rs_long_t)nw.n)) FAIL("patch stats in %lld out %lld", (long long)ps.in_bytes, (long long)ps.out_bytes);
    }
    st->nontriv++;
    free(cw.v.p); free(ap.p); free(p.c); free(cd.v.p);
out:
    free(co.v.p);
    rs_inbuflen = rs_outbuflen = 0;
    free(b.p); free(nw.p); free(wsig.p);
}
/* ---- rs_job_drive with caller callbacks ---- */
typedef struct { const vec *in; size_t pos; int n, fail; rs_result err; char *cur; sched s; vec out; char *ob; size_t oc; int after; } drv;
static rs_result d_in(rs_job_t *j, rs_buffers_t *b, void *a)
{
    drv *D = a; (void)j;
    if (D->after) FAIL("input callback called after it failed");
    if (D->n++ == D->fail) { D->after = 1; return D->err; }
    if (b->eof_in) FAIL("input callback called after end of input");
    size_t add = gchunk(&D->s.r, D->s.in_mode, D->in->n - D->pos);
    if (add > D->in->n - D->pos) add = D->in->n - D->pos;
    if (!add && D->pos < D->in->n && chance(&D->s.r, 50)) add = 1;
    char *t = malloc(b->avail_in + add + 1);
    if (b->avail_in) memcpy(t, b->next_in, b->avail_in);
    memcpy(t + b->avail_in, D->in->p + D->pos, add);
    free(D->cur);
    D->cur = t; D->pos += add;
    b->next_in = t; b->avail_in += add;
    if (D->pos == D->in->n && (!D->s.late_eof || !add)) b->eof_in = 1;
    return RS_DONE;
}
static rs_result d_out(rs_job_t *j, rs_buffers_t *b, void *a)
{
    drv *D = a; (void)j;
    if (D->after) FAIL("output callback called after it failed");
    if (b->next_out) v_put(&D->out, D->ob, (size_t)(b->next_out - D->ob));
    if (D->n++ == D->fail) { D->after = 1; return D->err; }
    free(D->ob);
    D->oc = 1 + gchunk(&D->s.r, D->s.out_mode, 100);
    D->ob = malloc(D->oc);
    b->next_out = D->ob; b->avail_out = D->oc;
    return RS_DONE;
}
static void case_drive(rng *r)
{
    vec b = gfile(r), w = {0};
    if (b.n > 20000) b.n = 20000;
    size_t bl = 1 + rb(r, 500);
    static const rs_result errs[] = {RS_IO_ERROR, RS_MEM_ERROR, RS_INPUT_ENDED, RS_BLOCKED, RS_PARAM_ERROR};
    drv I = {&b, 0, 0, chance(r, 25) ? (int)rb(r, 6) : -1, errs[rb(r, 5)], NULL, gsched(r)}, O = {NULL, 0, 0, chance(r, 25) ? (int)rb(r, 6) : -1, errs[rb(r, 5)], NULL, gsched(r)};
    o_sig(&w, MAGICS[3], b.p, b.n, bl, 32);
    rs_job_t *j = rs_sig_begin(bl, 32, (rs_magic_number)MAGICS[3]);
    rs_buffers_t buf;
    CTX("rs_job_drive signature of %zu bytes, input callback fails at %d with %d, output at %d with %d", b.n, I.fail, I.err, O.fail, O.err);
    rs_result rr = rs_job_drive(j, &buf, d_in, &I, d_out, &O);
    rs_job_free(j);
    if (I.after) { if (rr != I.err) FAIL("input callback error %d reported as %d", I.err, rr); }
    else if (O.after) { if (rr != O.err) FAIL("output callback error %d reported as %d", O.err, rr); }
    else { if (rr) FAIL("drive result %d", rr); same("driven output and signature", &O.out, &w); }
    st->nontriv++;
    free(b.p); free(w.p); free(I.cur); free(O.ob); free(O.out.p);
}
/* matching with crafted signatures: equal weak sums, duplicates, zero sums */
static void case_collide(rng *r)
{
    size_t bl = 1 + rb(r, 60), nb = 1 + rb(r, 300);
    u32 magic = MAGICS[rb(r, 4)];
    size_t sl = 8 + rb(r, 9);
    vec b = {0}, sg = {0}, nw = {0};
    u8 *t = malloc(bl);
    gfill(r, t, bl);
    for (size_t i = 0; i < nb; i++) { if (!chance(r, 30)) { for (size_t k = 0; k < bl; k++) t[k] = (u8)rn(r); } v_put(&b, t, bl); }
    v_be(&sg, magic, 4); v_be(&sg, bl, 4); v_be(&sg, sl, 4);
    int mode = (int)rb(r, 4);
    u32 fixw = (u32)rn(r), first = o_weak(magic, b.p + bl * rb(r, nb), bl);
    for (size_t i = 0; i < nb; i++) {
        u8 s[32]; u32 w = o_weak(magic, b.p + i * bl, bl);
        o_strong(magic, b.p + i * bl, bl, s);
        if (chance(r, 50)) {         /* fake block */
            w = mode == 0 ? first : mode == 1 ? 0 : mode == 2 ? (first & 0xff) | (u32)(rn(r) << 8) : chance(r, 50) ? fixw : 0xffffffffu;
            if (chance(r, 70)) for (int k = 0; k < 32; k++) s[k] = (u8)rn(r);
            else s[rb(r, sl)] ^= (u8)(1u << rb(r, 8));
        }
        v_be(&sg, w, 4); v_put(&sg, s, sl);
    }
    for (int i = 0; i < 20; i++) { if (chance(r, 30)) { u8 x[10]; gfill(r, x, 10); v_put(&nw, x, rb(r, 10)); } v_put(&nw, b.p + bl * rb(r, nb), bl); }
    CTX("crafted signature: %zu blocks of %zu, mode %d, magic %08x, new %zu", nb, bl, mode, magic, nw.n);
    rs_signature_t *sig = do_load(&sg, whole_sched(), NULL, NULL);
    if (rs_build_hash_table(sig)) FAIL("hash");
    vec d = do_delta(sig, &nw, gsched(r), NULL);
    parsed p = parse(d.p, d.n);
    if (p.res) FAIL("bad delta");
    u8 *m = ref_map(&sg, &nw);
    size_t o = 0;
    for (size_t i = 0; i < p.n; i++) {
        if (!p.c[i].lit) for (u64 k = 0; k < p.c[i].len; k += bl) {
            size_t bi = (p.c[i].pos + k) / bl; u8 S[32];
            if ((p.c[i].pos + k) % bl || bi >= nb) FAIL("match not at a block");
            size_t l = p.c[i].len - k < bl ? p.c[i].len - k : bl;
            o_strong(magic, nw.p + o + k, l, S);
            if ((u32)be(sg.p + 12 + bi * (4 + sl), 4) != o_weak(magic, nw.p + o + k, l) || memcmp(S, sg.p + 16 + bi * (4 + sl), sl)) FAIL("match with block %zu whose sums differ from the data's", bi);
        }
        for (u64 k = 0; k < p.c[i].len && o < nw.n; k++, o++) if (p.c[i].lit == m[o]) FAIL("byte %zu sent as %s, expected %s", o, p.c[i].lit ? "literal" : "copy", m[o] ? "copy" : "literal");
    }
    st->nontriv++;
    free(m); free(p.c); free(d.p); free(sg.p); free(b.p); free(nw.p); free(t);
    rs_free_sumset(sig);
}
/* a short last block matched at a large offset of the basis */
static void case_bigoff(rng *r)
{
    size_t n = 1 + rb(r, 200), nb = 1 + rb(r, 6), hit = rb(r, nb); u64 bl = chance(r, 50) ? 0x7fffffff - rb(r, 1000) : ((u64)1 << (20 + rb(r, 11))) + rb(r, 1000) - 500;
    u32 magic = MAGICS[rb(r, 4)]; size_t sl = (size_t)m_max(magic);
    u8 t[200], S[32]; for (size_t i = 0; i < n; i++) t[i] = (u8)rn(r);
    vec sg = {0}, nw = {t, n, n};
    v_be(&sg, magic, 4); v_be(&sg, bl, 4); v_be(&sg, sl, 4);
    for (size_t i = 0; i < nb; i++) {
        o_strong(magic, t, n, S);
        if (i != hit) for (int k = 0; k < 32; k++) S[k] = (u8)rn(r);
        v_be(&sg, i == hit || chance(r, 30) ? o_weak(magic, t, n) : (u32)rn(r), 4); v_put(&sg, S, sl);
    }
    CTX("crafted signature: %zu blocks of %llu, data is block %zu, magic %08x", nb, (unsigned long long)bl, hit, magic);
    rs_signature_t *sig = do_load(&sg, gsched(r), NULL, NULL);
    if (rs_build_hash_table(sig)) FAIL("hash");
    vec d = do_delta(sig, &nw, whole_sched(), NULL);
    parsed p = parse(d.p, d.n);
    if (p.res || p.n != 1 || p.c[0].lit || p.c[0].pos != bl * hit || p.c[0].len != n) { hexdump("delta", d.p, d.n); FAIL("expected one copy of %zu bytes from %llu", n, (unsigned long long)(bl * hit)); }
    st->nontriv++;
    free(p.c); free(d.p); free(sg.p);
    rs_free_sumset(sig);
}
/* blocks larger than a literal command, input added behind what is not consumed yet, little output space */
static void case_bigstall(rng *r)
{
    size_t bl = chance(r, 80) ? 65000 + rb(r, 200000) : 1 + rb(r, 64), n = bl * 5, given = 0;
    u32 magic = MAGICS[rb(r, 4)];
    vec b = {0}, nw = {0}, out = {0}, d = {0};
    for (size_t i = 0; i < bl * 3; i++) { u8 c = (u8)rn(r); v_put(&b, &c, 1); }
    while (nw.n < n) {
        if (chance(r, 70)) for (size_t i = 1 + (chance(r, 50) ? rb(r, 40) : rb(r, bl)); i; i--) { u8 c = (u8)rn(r); v_put(&nw, &c, 1); }
        v_put(&nw, b.p + bl * rb(r, 3), bl);
    }
    CTX("big blocks: block_len %zu, new %zu bytes, magic %08x, input appended", bl, nw.n, magic);
    vec sg = do_sig(&b, bl, 0, magic, whole_sched(), NULL, NULL);
    rs_signature_t *sig = do_load(&sg, whole_sched(), NULL, NULL);
    if (rs_build_hash_table(sig)) FAIL("hash");
    rs_job_t *job = rs_delta_begin(sig);
    rs_buffers_t q = {0}; rs_result rr; char ob[5000];
    q.next_in = (char *)nw.p;
    for (int k = 0;; k++) {
        size_t add = chance(r, 25) ? 0 : chance(r, 40) ? rb(r, bl * 3 / 2) : rb(r, 20000);
        if (given == 0 && chance(r, 70)) add = bl + 65536 + rb(r, bl);
        if (add > nw.n - given) add = nw.n - given;
        q.avail_in += add; given += add; q.eof_in = given == nw.n && chance(r, 60);
        size_t os = k == 0 ? 4 + rb(r, 12) : chance(r, 40) ? rb(r, 12) : 1 + rb(r, 5000), ai = q.avail_in;
        q.next_out = ob; q.avail_out = os;
        rr = rs_job_iter(job, &q);
        v_put(&d, ob, os - q.avail_out);
        if (rr != RS_BLOCKED) break;
        if (ai && os && ai == q.avail_in && os == q.avail_out) FAIL("no progress");
    }
    if (rr) FAIL("delta result %d after %zu of %zu bytes, %zu not consumed", rr, given, nw.n, q.avail_in);
    rs_job_free(job);
    basis B = {&b, 0, 0, -1}; rs_result pr;
    out = do_patch(&d, &B, whole_sched(), &pr, NULL);
    if (pr) FAIL("patch %d", pr);
    same("round trip with big blocks", &out, &nw);
    free(out.p); free(d.p); free(sg.p); free(b.p); free(nw.p); rs_free_sumset(sig); st->nontriv++;
}
/* different weak sums with the same hash table key and the same strong sum prefix */
static void case_w0(void)
{
    vec b = {(u8 *)W0_BASIS, 2000, 2000}, nw = {(u8 *)W0_NEW, 2000, 2000}, o = {0};
    CTX("native/w0.h, block_len 2000, strong_len 1, rollsum + MD4");
    vec sg = do_sig(&b, 2000, 1, 0x72730136, whole_sched(), NULL, NULL);
    rs_signature_t *sig = do_load(&sg, whole_sched(), NULL, NULL);
    if (rs_build_hash_table(sig)) FAIL("hash");
    vec d = do_delta(sig, &nw, whole_sched(), NULL);
    basis B = {&b, 0, 0, -1}; rs_result rr;
    o = do_patch(&d, &B, whole_sched(), &rr, NULL);
    if (rr) FAIL("patch %d", rr);
    same("round trip of data with weak sum 0 against a block with weak sum 0xffffffff", &o, &nw);
    free(o.p); free(d.p); free(sg.p); rs_free_sumset(sig); st->nontriv++;
}
/* ---- opening files ---- */
static char scratch[200];
static void case_open(rng *r)
{
    char f[300];
    snprintf(f, sizeof f, "%s/f%llu", scratch, (unsigned long long)rb(r, 1000000));
    int exists = chance(r, 50), wr = chance(r, 60), force = chance(r, 50), noread = exists && wr && !force && chance(r, 30);
    const char *mode = wr ? (chance(r, 50) ? "wb" : "w") : "rb";
    unlink(f);
    if (exists) { FILE *x = fopen(f, "wb"); fputs("precious", x); fclose(x); }
    CTX("rs_file_open(exists=%d, mode=%s, force=%d)%s", exists, mode, force, noread ? " as an unprivileged user, file mode 0222" : "");
    if (noread) { chmod(scratch, 0777); chmod(f, 0222); }
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        const char *fn = f;
        if (noread) {           /* an unprivileged user, working by relative name in the scratch directory */
            fn = strrchr(f, '/') + 1;
            if (chdir(scratch) || setgid(65534) || setuid(65534)) _exit(RS_IO_ERROR);
        }
        FILE *x = rs_file_open(fn, mode, force);
        if (!x) _exit(50);
        if (wr) fputs("new", x);
        _exit(fclose(x) ? 51 : 0);
    }
    int s;

    waitpid(pid, &s, 0);
    char c[20] = {0};
    FILE *x = fopen(f, "rb");
    if (x) { c[fread(c, 1, 19, x)] = 0; fclose(x); }
    int code = (s & 0x7f) ? -1 : (s >> 8) & 0xff;
    if (wr && exists && !force) { if (code != RS_IO_ERROR || strcmp(c, "precious")) FAIL("existing file: exit %d, content now \"%s\"", code, c); }
    else if (wr) { if (code || strcmp(c, "new")) FAIL("output file: exit %d, content \"%s\"", code, c); }
    else if (exists) { if (code || strcmp(c, "precious")) FAIL("input file: exit %d", code); }
    else if (code != RS_IO_ERROR) FAIL("missing input file: exit %d", code);
    unlink(f);
    const char *nm = chance(r, 50) ? "-" : NULL;
    if (rs_file_open(nm, wr ? "wb" : "rb", force) != (wr ? stdout : stdin)) FAIL("\"-\" is not standard %s", wr ? "output" : "input");
    if (rs_file_close(stdin) || rs_file_close(stdout) || fcntl(0, F_GETFD) < 0 || fcntl(1, F_GETFD) < 0) FAIL("closing standard streams");
    if (chance(r, 3)) { FILE *y = fopen("/dev/full", "wb"); if (y) { fputs("x", y); if (rs_file_close(y) == 0) FAIL("close error not reported"); } }
    st->nontriv++;
}

int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    PROP = argv[1];
    u64 seed = strtoull(argv[2], 0, 10);
    double secs = atof(argv[3]);
    int fd = open(argv[4], O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 4096)) return 2;
    st = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    snprintf(scratch, sizeof scratch, "%s.d", argv[4]);
    mkdir(scratch, 0700);
    signal(SIGALRM, on_alarm);
    rs_trace_set_level(RS_LOG_EMERG);
    u64 only = argc > 5 ? strtoull(argv[5], 0, 10) : 0;
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int P = atoi(PROP + 1);
    for (u64 c = only ? only : 1;; c++) {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (!only && (double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec) > secs) break;
        st->cur = c;
        ctx[0] = 0;
        rng r = {seed * 0x9e3779b97f4a7c15ULL + c * 0xd1342543de82ef95ULL + (u64)P};
        rn(&r);
        alarm(60);
        switch (P) {
        case 1: if (c == 1 && seed % 16 == 0) case_bigslack(); else if (c == 2) case_w0(); else if (c % 16 == 3) case_bigoff(&r); else { BIGBL = c % 32 == 5; case_roundtrip(&r, 1); } break;
        case 2: if (c % 32 == 8) case_bigstall(&r); else if (c & 1) case_split(&r); else if (c & 2) case_roundtrip(&r, 2); else case_patch(&r, 6); break;
        case 3: case_roundtrip(&r, 3); break;
        case 4: case_loadsig(&r); break;
        case 5: if (c == 1 && seed % 16 == 0) case_bigslack(); else if (c % 4 == 1) case_bigoff(&r); else if (c % 4) case_bigcopy(&r); else case_roundtrip(&r, 5); break;
        case 6: if (c % 5 == 0) case_roundtrip(&r, 6); else if (c % 5 == 1) case_bigcopy(&r); else case_patch(&r, 6); break;
        case 7: if (c % 8 == 0) case_fmt(&r); else if (c % 8 == 1) case_codec(&r); else if (c % 8 == 2) case_hash(&r); else if (c % 8 == 3) case_whole(&r, 1); else if (c % 16 == 4) case_bigoff(&r); else case_junk(&r); break;
        case 9: if (c == 2) case_w0(); else if (c % 16 == 4) case_bigoff(&r); else if (c & 1) case_collide(&r); else case_roundtrip(&r, 9); break;
        case 10: case_hash(&r); break;
        case 11: case_args(&r); break;
        case 12: BIGBL = c % 8 == 5; if (c % 8 == 3) case_bigstall(&r); else if (BIGBL) case_roundtrip(&r, 1); else if (c % 16 == 2) case_whole(&r, 1); else case_progress(&r); break;
        case 13: if (c & 1) case_whole(&r, 13); else case_drive(&r); break;
        case 14: if (c % 4 == 0) case_fmt(&r); else if (c % 4 == 1) case_whole(&r, 14); else if (c % 4 == 2) case_patch(&r, 14); else case_roundtrip(&r, 14); break;
        case 15: case_codec(&r); break;
        case 16: case_open(&r); break;
        default: case_roundtrip(&r, 3); break;
        }
        st->done++;
        if (only) break;
    }
    rmdir(scratch);
    printf("OK cases=%llu nontrivial=%llu\n", (unsigned long long)st->done, (unsigned long long)st->nontriv);
    return 0;
}
