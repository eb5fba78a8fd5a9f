/* Bounded driver of the incremental BLAKE2b interface (internal).
 * Usage: vpb <prop> <seed> <seconds> <statefile> [case] */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include "config.h"
#include "librsync.h"
#include "checksum.h"
#include "blake2.h"
#include "oracle.h"
static struct { volatile u64 cur, done, nontriv; } *st;
static void on_alarm(int s) { (void)s; static const char m[] = "FAIL timeout: the case did not finish (hang)\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    u64 seed = strtoull(argv[2], 0, 10);
    double secs = atof(argv[3]);
    int fd = open(argv[4], O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 4096)) return 2;
    st = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    signal(SIGALRM, on_alarm);
    u64 only = argc > 5 ? strtoull(argv[5], 0, 10) : 0;
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (u64 c = only ? only : 1;; c++) {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (!only && (double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec) > secs) break;
        st->cur = c;
        rng r = {seed * 0x9e3779b97f4a7c15ULL + c * 0xd1342543de82ef95ULL + 10};
        rn(&r);
        alarm(60);
        size_t n = c < 700 ? c - 1 : rb(&r, 5) ? rb(&r, 1200) : rb(&r, 200000), pos = 0, k = 0;
        u8 *m = malloc(n + 1), out[32], e[32], whole[32];
        for (size_t i = 0; i < n; i++) m[i] = (u8)rn(&r);
        char cuts[600] = ""; size_t cl = 0;
        blake2b_state S;
        memset(&S, 0x5a, sizeof S);
        blake2b_init(&S, 32);
        int mode = (int)rb(&r, 4);
        while (pos < n) {
            size_t l = mode == 0 ? 1 + rb(&r, 3) : mode == 1 ? 128 * rb(&r, 4) + rb(&r, 2) : mode == 2 ? rb(&r, 300) : chance(&r, 50) ? 128 - k % 128 : rb(&r, 260);
            if (n > 3000) l = l * 37 + 1;
            if (l > n - pos) l = n - pos;
            u8 *tmp = malloc(l + 1); memcpy(tmp, m + pos, l);
            blake2b_update(&S, tmp, l);
            free(tmp);
            pos += l; k = pos;
            if (cl < sizeof cuts - 10) cl += (size_t)snprintf(cuts + cl, sizeof cuts - cl, "%zu ", l);
        }
        blake2b_final(&S, out, 32);
        o_strong(0x72730147, m, n, e);
        rs_strong_sum_t ss; rs_calc_strong_sum(RS_BLAKE2, m, n, &ss); memcpy(whole, ss, 32);
        if (memcmp(whole, e, 32)) { printf("FAIL case=%llu: BLAKE2b of %zu bytes at once differs from RFC 7693\n", (unsigned long long)c, n); fflush(stdout); _exit(1); }
        if (memcmp(out, e, 32)) { printf("FAIL case=%llu: BLAKE2b of %zu bytes fed in pieces of %s... differs from RFC 7693\n", (unsigned long long)c, n, cuts); fflush(stdout); _exit(1); }
        if (n > 128) st->nontriv++;
        free(m);
        st->done++;
        if (only) break;
    }
    printf("OK cases=%llu nontrivial=%llu\n", (unsigned long long)st->done, (unsigned long long)st->nontriv);
    return 0;
}
