/* Independent reference implementations (written from the RFCs and from
 * doc/formats.md), used as oracles by the bounded stand-ins and replays. */
#ifndef ORACLE_H
#define ORACLE_H
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64;

/* ---- rng ---- */
typedef struct { u64 s; } rng;
static inline u64 rn(rng *r) { u64 z = (r->s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static inline u64 rb(rng *r, u64 n) { return n ? rn(r) % n : 0; }
static inline int chance(rng *r, int pct) { return (int)rb(r, 100) < pct; }

/* ---- MD4 (RFC 1320) ---- */
static inline u32 o_rol(u32 x, int s) { return (x << s) | (x >> (32 - s)); }
static void o_md4(const u8 *m, size_t n, u8 *out)
{
    static const int s1[4] = {3,7,11,19}, s2[4] = {3,5,9,13}, s3[4] = {3,9,11,15};
    static const int k3[16] = {0,8,4,12,2,10,6,14,1,9,5,13,3,11,7,15};
    u32 h[4] = {0x67452301u,0xefcdab89u,0x98badcfeu,0x10325476u};
    size_t tot = ((n + 8) / 64 + 1) * 64;
    u8 *p = calloc(1, tot);
    if (n) memcpy(p, m, n);
    p[n] = 0x80;
    u64 bits = (u64)n * 8;
    for (int i = 0; i < 8; i++) p[tot - 8 + i] = (u8)(bits >> (8 * i));
    for (size_t o = 0; o < tot; o += 64) {
        u32 X[16], v[4];
        for (int i = 0; i < 16; i++) X[i] = p[o+4*i] | (u32)p[o+4*i+1] << 8 | (u32)p[o+4*i+2] << 16 | (u32)p[o+4*i+3] << 24;
        memcpy(v, h, sizeof v);
        for (int i = 0; i < 48; i++) {
            int r = i / 16, j = i % 16, a = (4 - i % 4) % 4;
            u32 b = v[(a+1)%4], c = v[(a+2)%4], d = v[(a+3)%4], f, k; int s;
            if (r == 0) { f = (b & c) | (~b & d); k = X[j]; s = s1[j%4]; }
            else if (r == 1) { f = (b & c) | (b & d) | (c & d); k = X[(j % 4) * 4 + j / 4] + 0x5a827999u; s = s2[j%4]; }
            else { f = b ^ c ^ d; k = X[k3[j]] + 0x6ed9eba1u; s = s3[j%4]; }
            v[a] = o_rol(v[a] + f + k, s);
        }
        for (int i = 0; i < 4; i++) h[i] += v[i];
    }
    for (int i = 0; i < 16; i++) out[i] = (u8)(h[i/4] >> (8 * (i%4)));
    free(p);
}

/* ---- BLAKE2b-256 (RFC 7693) ---- */
static inline u64 o_ror(u64 x, int s) { return (x >> s) | (x << (64 - s)); }
static void o_b2b(const u8 *m, size_t n, u8 *out, int nn)
{
    static const u64 iv[8] = {0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
    static const u8 sg[10][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
    static const u8 ix[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
    u64 h[8];
    memcpy(h, iv, sizeof h);
    h[0] ^= 0x01010000ULL ^ (u64)nn;
    size_t nb = n ? (n + 127) / 128 : 1;
    for (size_t b = 0; b < nb; b++) {
        u8 blk[128]; u64 w[16], v[16];
        size_t l = n - b * 128 > 128 ? 128 : n - b * 128;
        memset(blk, 0, 128);
        if (l) memcpy(blk, m + b * 128, l);
        for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 7; j >= 0; j--) w[i] = w[i] << 8 | blk[8*i+j]; }
        for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i+8] = iv[i]; }
        v[12] ^= (u64)(b * 128 + l);
        if (b == nb - 1) v[14] = ~v[14];
        for (int r = 0; r < 12; r++) for (int g = 0; g < 8; g++) {
            u64 *A = &v[ix[g][0]], *B = &v[ix[g][1]], *C = &v[ix[g][2]], *D = &v[ix[g][3]];
            *A += *B + w[sg[r%10][2*g]]; *D = o_ror(*D ^ *A, 32); *C += *D; *B = o_ror(*B ^ *C, 24);
            *A += *B + w[sg[r%10][2*g+1]]; *D = o_ror(*D ^ *A, 16); *C += *D; *B = o_ror(*B ^ *C, 63);
        }
        for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i+8];
    }
    for (int i = 0; i < nn; i++) out[i] = (u8)(h[i/8] >> (8 * (i%8)));
}

/* ---- weak sums ---- */
static u32 o_rollsum(const u8 *b, size_t n)
{
    u32 s1 = 0, s2 = 0;
    for (size_t i = 0; i < n; i++) { s1 = (s1 + b[i] + 31) & 0xffff; s2 = (s2 + s1) & 0xffff; }
    return s2 << 16 | s1;
}
static u32 o_rk(const u8 *b, size_t n) { u32 h = 1; for (size_t i = 0; i < n; i++) h = h * 0x08104225u + b[i]; return h; }

/* ---- formats ---- */
#define M_DELTA 0x72730236u
static const u32 MAGICS[4] = {0x72730136u, 0x72730137u, 0x72730146u, 0x72730147u};
static inline int m_rk(u32 m) { return (m & 0xf0) == 0x40; }
static inline int m_md4(u32 m) { return (m & 0xf) == 6; }
static inline int m_max(u32 m) { return m_md4(m) ? 16 : 32; }
static u32 o_weak(u32 m, const u8 *b, size_t n) { return m_rk(m) ? o_rk(b, n) : o_rollsum(b, n); }
static void o_strong(u32 m, const u8 *b, size_t n, u8 *o) { if (m_md4(m)) o_md4(b, n, o); else o_b2b(b, n, o, 32); }

typedef struct { u8 *p; size_t n, a; } vec;
static inline void v_put(vec *v, const void *p, size_t n)
{
    if (v->n + n > v->a) { v->a = (v->n + n) * 2 + 64; v->p = realloc(v->p, v->a); }
    if (n) memcpy(v->p + v->n, p, n);
    v->n += n;
}
static inline void v_be(vec *v, u64 x, int w) { for (int i = w - 1; i >= 0; i--) { u8 c = (u8)(x >> (8 * i)); v_put(v, &c, 1); } }
static void o_sig(vec *o, u32 magic, const u8 *b, size_t n, size_t bl, int sl)
{
    v_be(o, magic, 4); v_be(o, bl, 4); v_be(o, (u64)sl, 4);
    for (size_t i = 0; i < n; i += bl) {
        size_t l = n - i < bl ? n - i : bl;
        u8 s[32];
        v_be(o, o_weak(magic, b + i, l), 4);
        o_strong(magic, b + i, l, s);
        v_put(o, s, (size_t)sl);
    }
}
#endif
