/* Bounded driver of internal interfaces (weaksum operations).
 * Usage: vpi <prop> <seed> <seconds> <statefile> [case] */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include "config.h"
#include "librsync.h"
#include "checksum.h"
#include "oracle.h"
static struct { volatile u64 cur, done, nontriv; } *st;
static char ctx[8192];
static void CTX(const char *f, ...) { va_list a; va_start(a, f); size_t l = strlen(ctx); vsnprintf(ctx + l, sizeof ctx - l, f, a); va_end(a); }
static void FAIL(const char *f, ...)
{
    va_list a; va_start(a, f);
    printf("FAIL case=%llu: ", (unsigned long long)st->cur); vprintf(f, a); printf("\n  operations: %s\n", ctx); fflush(stdout); _exit(1);
}
static void on_alarm(int s) { (void)s; static const char m[] = "FAIL timeout: the case did not finish (hang)\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
static u32 o_mix(u32 h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16; return h; }

static void check(weaksum_t *w, int kind, const u8 *p, size_t n)
{
    u32 want = kind == RS_ROLLSUM ? o_rollsum(p, n) : o_rk(p, n);
    u32 raw = kind == RS_ROLLSUM ? o_mix(want) : want;
    if (weaksum_count(w) != n) FAIL("kind %d: count %zu, window holds %zu bytes", kind, weaksum_count(w), n);
    if (weaksum_digest(w) != raw) FAIL("kind %d: digest %08x after rolling, %08x from scratch over the %zu bytes of the window", kind, weaksum_digest(w), raw, n);
    u32 c = rs_calc_weak_sum(kind, p, n);
    if (c != want) FAIL("kind %d: rs_calc_weak_sum of %zu bytes is %08x, documented function gives %08x", kind, n, c, want);
}
static void case_roll(rng *r, u64 c)
{
    int kind = chance(r, 50) ? RS_ROLLSUM : RS_RABINKARP;
    size_t cap = c % 50 == 3 ? 1 << 22 : c % 10 == 3 ? 1 << 18 : 1 << 12;
    u8 *b = malloc(cap);
    int fill = rb(r, 3);
    for (size_t i = 0; i < cap; i++) b[i] = fill == 0 ? 0xff : fill == 1 ? (u8)(i & 1 ? 0 : 255) : (u8)rn(r);
    size_t lo = 0, hi = 0;
    weaksum_t w;
    memset(&w, 0x5a, sizeof w);
    weaksum_init(&w, kind);
    check(&w, kind, b, 0);
    int ops = 3 + rb(r, 40);
    for (int k = 0; k < ops; k++) {
        switch (rb(r, 6)) {
        case 0: case 1: {
            size_t n = rb(r, 4) == 0 ? rb(r, cap) : rb(r, 70);
            if (n > cap - hi) n = cap - hi;
            CTX("update(%zu) ", n); weaksum_update(&w, b + hi, n); hi += n; break; }
        case 2: if (hi < cap) { CTX("rollin "); weaksum_rollin(&w, b[hi++]); } break;
        case 3: if (lo < hi) { CTX("rollout "); weaksum_rollout(&w, b[lo++]); } break;
        case 4: {
            size_t m = 1 + rb(r, 40);
            CTX("rotate*%zu ", m);
            while (m-- && lo < hi && hi < cap) weaksum_rotate(&w, b[lo++], b[hi++]);
            break; }
        case 5: if (chance(r, 10)) { CTX("reset "); weaksum_reset(&w); lo = hi; }
                else if (chance(r, 30)) { CTX("rollout-all "); while (lo < hi && hi - lo < 5000) weaksum_rollout(&w, b[lo++]); }
                break;
        }
        if (hi - lo < (1 << 16) || chance(r, 20)) check(&w, kind, b + lo, hi - lo);
    }
    check(&w, kind, b + lo, hi - lo);
    if (hi) st->nontriv++;
    free(b);
}
static void case_len(rng *r, u64 c)
{
    size_t n = c % 4096;
    u8 *b = malloc(n + 1);
    for (size_t i = 0; i < n; i++) b[i] = (u8)rn(r);
    weaksum_t w;
    for (int k = 0; k < 2; k++) { CTX("update(%zu) kind %d ", n, k); weaksum_init(&w, k); weaksum_update(&w, b, n); check(&w, k, b, n); }
    st->nontriv++;
    free(b);
}
int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    u64 seed = strtoull(argv[2], 0, 10);
    double secs = atof(argv[3]);
    int fd = open(argv[4], O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 4096)) return 2;
    st = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    signal(SIGALRM, on_alarm);
    u64 only = argc > 5 ? strtoull(argv[5], 0, 10) : 0;
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (u64 c = only ? only : 1;; c++) {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (!only && (double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec) > secs) break;
        st->cur = c;
        ctx[0] = 0;
        rng r = {seed * 0x9e3779b97f4a7c15ULL + c * 0xd1342543de82ef95ULL + 8};
        rn(&r);
        alarm(60);
        if (c & 1) case_len(&r, c / 2); else case_roll(&r, c / 2);
        st->done++;
        if (only) break;
    }
    printf("OK cases=%llu nontrivial=%llu\n", (unsigned long long)st->done, (unsigned long long)st->nontriv);
    return 0;
}
