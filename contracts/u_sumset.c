/* Contracts on the block table (sumset.c) and its hash table (hashtable.h,
 * hashtable.c).
 *
 * Table invariant.  For a key k let P(0) = k & tmask, P(s+1) = (P(s) + s + 1) &
 * tmask.  Every entry is at some P(s) of its key with no empty bucket at P(t),
 * t < s; its key's bloom bit is set; an empty bucket lies on every P.  (There is
 * always an empty bucket, and P visits every bucket of a power of two sized
 * table: lemma tri.lean.)  Universally quantified facts are used by instance. */
#define VP_SMALL 36
#include "vp.h"
#include "hashtable.h"
#include "sumset.h"
#include "util.h"
#undef memcpy
#undef memmove
const int RS_MD4_SUM_LENGTH = 16, RS_BLAKE2_SUM_LENGTH = 32;
/* what rs_realloc was asked for: libc keeps the old contents */
static struct { int n; void *old, *p; size_t sz; } RA;
void *rs_realloc(void *p, size_t n, char const *name) { RA.n++; RA.old = p; RA.sz = n; RA.p = malloc(n); VP_ASSUME(RA.p != NULL); return RA.p; }
char const *rs_strerror(rs_result r) { return ""; }
void rs_hexify(char *to, void const *from, int n) { }
int rs_long_ln2(rs_long_t v) { int x; return x; }
int rs_long_sqrt(rs_long_t v) { int x; return x; }
void *rs_alloc_struct0(size_t n, char const *name) { return NULL; }
void *rs_alloc(size_t n, char const *name) { return NULL; }
void rs_bzero(void *p, size_t n) { }

/* the strong sum of the data looked up: any function of (kind, data) */
static struct { int n, kind; const void *buf; size_t len; } ST;
static rs_strong_sum_t STV;
rs_weak_sum_t rs_calc_weak_sum(weaksum_kind_t kind, void const *buf, size_t len) { rs_weak_sum_t v; return v; }
void rs_calc_strong_sum(strongsum_kind_t kind, void const *buf, size_t len, rs_strong_sum_t *sum)
{
    ST.n++; ST.kind = kind; ST.buf = buf; ST.len = len;
    for (int i = 0; i < 32; i++) (*sum)[i] = STV[i];
}
static int vp_memcmp(const void *a, const void *b, size_t n)
{
    int r = 0;
    __CPROVER_assert(n <= 32, "VPTOOL small memcmp bound");
    for (size_t i = 0; i < 32; i++)
        if (i < n && !r) r = (int)((const u8 *)a)[i] - (int)((const u8 *)b)[i];
    return r;
}
#define memcmp(a, b, n) vp_memcmp((a), (b), (n))
#define memcpy(d, s, n) vp_smallcpy((d), (s), (n))
#define memmove(d, s, n) vp_smallcpy((d), (s), (n))

static unsigned key(unsigned w) { return w ? w : (unsigned)-1; }
static rs_signature_t SG;
static size_t ENT;              /* size of a packed entry */
static int m_md4(void) { return (SG.magic & 15) == 6; }
static void vp_params(void)
{
    rs_signature_t g; SG = g;
    VP_ASSUME(SG.magic == 0x72730136 || SG.magic == 0x72730137 || SG.magic == 0x72730146 || SG.magic == 0x72730147);
    VP_ASSUME(SG.strong_sum_len >= 1 && SG.strong_sum_len <= (m_md4() ? 16 : 32) && SG.block_len >= 1);
    /* domain: fewer than 2^29 blocks (DESIGN.md) */
    VP_ASSUME(0 <= SG.count && SG.count <= SG.size && SG.size <= 1 << 29);
    ENT = 4 + (((size_t)SG.strong_sum_len + 3) & ~(size_t)3);
}
static rs_block_sig_t *vp_entry(int b) { return (rs_block_sig_t *)((char *)SG.block_sigs + (size_t)b * ENT); }

/* ---- hash table ghost state ---- */
static hashtable_t *T;
static int EB;                  /* block whose entry sits in the bucket at hand */
static unsigned SS, SI;         /* completeness: a matching entry sits at P(SS) = SI */
static unsigned SZ;             /* an empty bucket is at P(SZ) */
static unsigned PI, PS;         /* previous i, s */
static unsigned TI, TS;         /* add: some earlier P(TS) = TI */
static rs_block_sig_t *CE;      /* completeness: that entry */
static void vp_table(void)
{
    unsigned sh; int n;
    VP_ASSUME(sh >= 1 && sh <= 30);
    n = 1 << sh;
    T = malloc(sizeof(hashtable_t) + (size_t)n * sizeof(unsigned));
    VP_ASSUME(T != NULL);
    T->size = n; T->tmask = n - 1; T->bshift = 32 - sh;
    T->etable = malloc((size_t)n * sizeof(void *)); VP_ASSUME(T->etable != NULL);
    T->kbloom = malloc(((size_t)n + 7) / 8); VP_ASSUME(T->kbloom != NULL);
    VP_ASSUME(0 <= T->count && T->count < T->size && T->count <= SG.count);
#ifndef HASHTABLE_NSTATS
    long c1, c2, c3, c4; VP_ASSUME(c1 >= 0 && c1 < LONG_MAX && c2 >= 0 && c2 < LONG_MAX && c3 >= 0 && c3 < LONG_MAX && c4 >= 0 && c4 < LONG_MAX);
    T->find_count = c1; T->match_count = c2; T->hashcmp_count = c3; T->entrycmp_count = c4;
    VP_ASSUME(SG.calc_strong_count >= 0 && SG.calc_strong_count < LONG_MAX);
#endif
    unsigned a, b, c; SS = a; SI = b; SZ = c;
}

/* find: the bucket at P(s) holds some well-formed entry */
struct rs_block_match;
static void ft_havoc(struct rs_block_match *, unsigned hm, unsigned i, unsigned s);
#define HT_FIND_BEGIN \
    if (!vp_cut[0]) { \
        VP_ASSERT(s == 0 && i == (hm & T->tmask), "loop invariant holds on entry"); \
        unsigned vi, vs; i = vi; s = vs; VP_ASSUME(i <= T->tmask && s <= SZ); \
        VP_ASSUME(s == 0 ? i == (hm & T->tmask) : 1); \
        VP_ASSUME(T->ktable[i] != 0 && s != SZ); he = T->ktable[i]; \
        ft_havoc(m, hm, i, s); vp_cut[0] = 1; PI = i; PS = s; \
    } else { \
        VP_ASSERT(s == PS + 1 && i == ((PI + s) & T->tmask) && s <= SZ && (!CE || s <= SS), "loop invariant is kept"); VP_ASSUME(0); \
    }
#define HT_FIND_END { unsigned ni = (i + s + 1) & T->tmask; VP_ASSUME(s + 1 == SZ ? T->ktable[ni] == 0 : 1); \
    if (CE) { VP_ASSERT(s < SS, "a matching entry on the probe sequence is not passed over"); VP_ASSUME(s + 1 <= SS ? T->ktable[ni] != 0 : 1); } }
/* add: buckets before the one chosen are not empty */
#define HT_ADD_BEGIN \
    if (!vp_cut[1]) { \
        VP_ASSERT(s == 0 && i == (he & T->tmask), "loop invariant holds on entry"); \
        unsigned vi, vs; i = vi; s = vs; VP_ASSUME(i <= T->tmask && s <= SZ); \
        VP_ASSUME(s == 0 ? i == (he & T->tmask) : 1); \
        VP_ASSUME(TS < s ? T->ktable[TI] != 0 : 1); VP_ASSUME(TS == s ? TI == i : 1); \
        VP_ASSUME(T->ktable[i] != 0 && s != SZ); h = T->ktable[i]; \
        vp_cut[1] = 1; PI = i; PS = s; \
    } else { \
        VP_ASSERT(s == PS + 1 && i == ((PI + s) & T->tmask) && s <= SZ && (TS < s ? T->ktable[TI] != 0 : 1), "loop invariant is kept"); VP_ASSUME(0); \
    }
#define HT_ADD_END { unsigned ni = (i + s + 1) & T->tmask; VP_ASSUME(s + 1 == SZ ? T->ktable[ni] == 0 : 1); }

#ifdef VP_BUILD
#define BT_BEGIN VP_CUT(2, bt_inv(sig, i), (long long)sig->count - i, { int vi; i = vi; VP_ASSUME(i >= 0 && i < sig->count); rs_block_match_t vm; m = vm; rs_block_sig_t *vb; b = vb; bt_havoc(i); })
static _Bool bt_inv(rs_signature_t *sig, int i);
static void bt_havoc(int i);
#endif
#include "sumset.c"
#include "hashtable.c"

static void ft_havoc(struct rs_block_match *m, unsigned hm, unsigned i, unsigned s)
{
    _Bool done; int b;
    if (done) { /* an earlier bucket had the same key: the strong sum is known now */
        for (int k = 0; k < 32; k++) m->block_sig.strong_sum[k] = STV[k];
        ST.n = 1; ST.buf = m->buf; ST.len = m->len; ST.kind = m_md4() ? RS_MD4 : RS_BLAKE2;
        m->buf = NULL;
    }
    VP_ASSUME(b >= 0 && b < SG.count);
    EB = b;
    T->etable[i] = vp_entry(b);
    VP_ASSUME(T->ktable[i] == key(vp_entry(b)->weak_sum));
    if (CE) {
        VP_ASSUME(s <= SS);
        if (s == SS) { VP_ASSUME(i == SI && b >= 0); T->etable[i] = CE; VP_ASSUME(T->ktable[i] == hm); }
    }
}
#define FIND_SETUP \
    vp_params(); \
    SG.block_sigs = malloc((size_t)SG.size * ENT); VP_ASSUME(SG.block_sigs != NULL); \
    vp_table(); SG.hashtable = T; \
    rs_strong_sum_t sv; for (int i = 0; i < 32; i++) STV[i] = sv[i]; \
    unsigned w; size_t len; char *buf = malloc(1); VP_ASSUME(buf != NULL && len >= 1); \
    VP_ASSUME(SZ == 0 ? T->ktable[key(w) & T->tmask] == 0 : 1)
/* a reported match is a match, at that block's offset */
void h_find_sound(void)
{
    FIND_SETUP; CE = NULL; VP_ASSUME(SG.count > 0);
    rs_long_t r = rs_signature_find_match(&SG, w, buf, len);
    if (r != -1) {
        VP_ASSERT(vp_entry(EB)->weak_sum == w, "find_match: the block's weak sum is the one looked up");
        size_t g; VP_ASSUME(g < (size_t)SG.strong_sum_len);
        VP_ASSERT(vp_entry(EB)->strong_sum[g] == STV[g], "find_match: the block's strong sum is that of the data");
        VP_ASSERT(ST.n == 1 && ST.buf == buf && ST.len == len && ST.kind == (m_md4() ? RS_MD4 : RS_BLAKE2), "find_match: the strong sum is of exactly the data looked up");
        VP_REACH("found");
    }
}
/* the offset reported is that of the entry found (rs_block_sig_idx by its contract, h_idx) */
static rs_block_sig_t *FE;
rs_block_sig_t *vp_find(hashtable_t *t, struct rs_block_match *m)
{
    VP_ASSERT(t == SG.hashtable && m->buf && m->signature == &SG, "find_match: looks in this signature's table");
    return FE;
}
int vp_idx(const rs_signature_t *sig, rs_block_sig_t *b)
{
    VP_ASSERT(sig == &SG && b == FE, "find_match: the index is that of the entry found");
    return EB;
}
void h_find_off(void)
{
    vp_params();
    int e; EB = e; VP_ASSUME(e >= 0 && e < SG.count);
    hashtable_t tt; SG.hashtable = &tt;
    rs_block_sig_t be; _Bool f; FE = f ? &be : NULL;
    unsigned w; char buf[1]; size_t len;
    rs_long_t r = rs_signature_find_match(&SG, w, buf, len);
    VP_ASSERT(r == (f ? (rs_long_t)e * SG.block_len : -1), "find_match: the offset is that of the matching block");
    VP_REACH("end");
}
void h_idx(void)
{
    vp_params();
    SG.block_sigs = malloc((size_t)SG.size * ENT); VP_ASSUME(SG.block_sigs != NULL);
    int b; VP_ASSUME(b >= 0 && b < SG.count);
#ifdef VP_L
    VP_ASSUME(ENT == VP_L);
#endif
    VP_ASSERT(rs_block_sig_size(&SG) == ENT, "block entries are packed: 4 + strong length rounded up to 4");
    VP_ASSERT(rs_block_sig_idx(&SG, vp_entry(b)) == b && rs_block_sig_ptr(&SG, b) == vp_entry(b), "block index and block address correspond");
    VP_REACH("end");
}
/* a match is found when there is one */
void h_find_complete(void)
{
    FIND_SETUP; int b; VP_ASSUME(b >= 0 && b < SG.count);
    CE = vp_entry(b);
    VP_ASSUME(CE->weak_sum == w && SS < SZ && SI <= T->tmask);
    for (int k = 0; k < 32; k++) if (k < SG.strong_sum_len) VP_ASSUME(CE->strong_sum[k] == STV[k]);
    VP_ASSUME(SS == 0 ? SI == (key(w) & T->tmask) && T->ktable[SI] == key(w) : T->ktable[key(w) & T->tmask] != 0);
    unsigned bi = key(w) >> T->bshift;
    VP_ASSUME(T->kbloom[bi / 8] >> (bi % 8) & 1);
    rs_long_t r = rs_signature_find_match(&SG, w, buf, len);
    VP_ASSERT(r != -1, "find_match: a block with equal sums is found");
    VP_REACH("found");
}

/* adding a block: stored at the next place, packed, mixed for the rolling sum */
void h_add_block(void)
{
    vp_params();
    SG.hashtable = NULL;
    VP_ASSUME(SG.size <= 1 << 28);      /* so that doubling stays in the domain */
    SG.block_sigs = malloc((size_t)SG.size * ENT); VP_ASSUME(SG.block_sigs != NULL);
    char *old = SG.block_sigs; rs_signature_t s0 = SG;
    unsigned w; rs_strong_sum_t sum;
    size_t wi; u8 wv = 0; VP_ASSUME(wi < (size_t)SG.count * ENT || SG.count == 0);   /* any byte of an earlier block */
    if (SG.count) wv = ((u8 *)old)[wi];
    rs_block_sig_t *b = rs_signature_add_block(&SG, w, &sum);
    VP_ASSERT(SG.count == s0.count + 1 && SG.size >= SG.count && SG.magic == s0.magic && SG.block_len == s0.block_len && SG.strong_sum_len == s0.strong_sum_len, "add_block: one block more");
    if (s0.count < s0.size)
        VP_ASSERT(RA.n == 0 && SG.size == s0.size && SG.block_sigs == (void *)old, "add_block: room is used before growing");
    else
        VP_ASSERT(RA.n == 1 && RA.old == (void *)old && SG.block_sigs == RA.p && RA.sz >= (size_t)SG.size * ENT, "add_block: grown to hold size blocks");
    rs_block_sig_t *e = vp_entry(s0.count);
    VP_ASSERT(b == e, "add_block: the block after the last");
    unsigned h = w; h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16;
    VP_ASSERT(e->weak_sum == ((SG.magic & 0xf0) == 0x30 ? h : w), "add_block: weak sum stored, mixed for the rolling sum");
    size_t g; VP_ASSUME(g < (size_t)SG.strong_sum_len);
    VP_ASSERT(e->strong_sum[g] == sum[g], "add_block: strong sum stored");
    if (s0.count && RA.n == 0)
        VP_ASSERT(((u8 *)SG.block_sigs)[wi] == wv, "add_block: earlier blocks are unchanged");
    VP_REACH("end");
}
/* adding to the hash table keeps the table invariant */
void h_table_add(void)
{
    vp_params();
    SG.block_sigs = malloc((size_t)SG.size * ENT); VP_ASSUME(SG.block_sigs != NULL);
    vp_table();
    int b; VP_ASSUME(b >= 0 && b < SG.count);
    rs_block_sig_t *e = vp_entry(b);
    unsigned k = key(e->weak_sum), a, c, ob, j, t0;
    VP_ASSUME(T->count + 1 < T->size || T->count + 1 == T->size);
    VP_ASSUME(SZ == 0 ? T->ktable[k & T->tmask] == 0 : T->ktable[k & T->tmask] == 0 || 1);
    TS = a; TI = c; VP_ASSUME(TI <= T->tmask && (TS == 0 ? TI == (k & T->tmask) : 1));
    VP_ASSUME(j <= T->tmask); unsigned kj = T->ktable[j]; void *ej = T->etable[j];
    VP_ASSUME(ob <= T->tmask); u8 bb = T->kbloom[ob / 8] >> (ob % 8) & 1;
    int cnt = T->count, room = T->count + 1 < T->size;
    rs_block_sig_t *r = hashtable_add(T, e);
    unsigned bk = k >> T->bshift;
    if (!room) {
        VP_ASSERT(r == NULL && T->count == cnt && T->ktable[j] == kj && T->etable[j] == ej, "hashtable_add: a full table is left alone");
        return;
    }
    VP_ASSERT(r == e && T->count == cnt + 1, "hashtable_add: counted");
    VP_ASSERT(T->kbloom[bk / 8] >> (bk % 8) & 1, "hashtable_add: bloom bit of the key set");
    VP_ASSERT(!bb || T->kbloom[ob / 8] >> (ob % 8) & 1, "hashtable_add: no bloom bit cleared");
    /* only one bucket changed: an empty one, which now holds e under its key */
    VP_ASSERT(T->ktable[j] == kj && T->etable[j] == ej || kj == 0 && T->ktable[j] == k && T->etable[j] == (void *)e, "hashtable_add: only an empty bucket changes, to hold the entry");
    if (T->ktable[j] != kj) {
        VP_ASSERT(j == (vp_cut[1] ? (PI + PS + 1) & T->tmask : k & T->tmask), "hashtable_add: the entry is on its key's probe sequence");
        VP_ASSERT(!vp_cut[1] || TS > PS || T->ktable[TI] != 0, "hashtable_add: no empty bucket before it on the sequence");
    }
    VP_REACH("added");
}
/* a new table is empty, a power of two, and has room for size entries */
void h_table_new(void)
{
    int n; VP_ASSUME(n >= 0);
    hashtable_t *t = _hashtable_new(n);
    long long want = 1 + (long long)n * 10 / 7;
    if (want > 1 << 30) {
        VP_ASSERT(t == NULL, "hashtable_new: too many entries are refused");
        return;
    }
    if (t) {
        VP_ASSERT(t->size >= want && t->size >= 2 && (t->size & (t->size - 1)) == 0 && t->tmask == (unsigned)t->size - 1, "hashtable_new: a power of two with spare buckets");
        VP_ASSERT((unsigned)1 << (32 - t->bshift) == (unsigned)t->size && t->count == 0, "hashtable_new: bloom index covers the table");
        unsigned j; VP_ASSUME(j <= t->tmask);
        VP_ASSERT(t->ktable[j] == 0 && t->etable[j] == NULL && t->kbloom[j / 8] == 0, "hashtable_new: empty");
        VP_REACH("made");
    }
}

#ifdef VP_BUILD
/* indexing a signature: every block can be found afterwards, as itself or as an
 * earlier block with equal sums.  hashtable_find and hashtable_add by contract. */
static int WB;                  /* any block */
static int indexed;             /* that block can be found */
static int CI;                  /* block of the current iteration */
static _Bool bt_inv(rs_signature_t *sig, int i)
{
    return sig->hashtable == T && T->count >= 0 && T->count <= i && i < sig->count && (WB < i ? indexed : 1);
}
static void bt_havoc(int i)
{
    int c; _Bool x;
    T->count = c; indexed = x; CI = i;
    VP_ASSUME(SG.hashtable == T);
}
rs_block_sig_t *vp_bfind(hashtable_t *t, struct rs_block_match *m)
{
    rs_block_sig_t *b = vp_entry(CI), *r;
    _Bool f;
    VP_ASSERT(t == T && m->signature == &SG && !m->buf && m->block_sig.weak_sum == b->weak_sum, "build: looks up the block itself");
    size_t g; VP_ASSUME(g < (size_t)SG.strong_sum_len);
    VP_ASSERT(m->block_sig.strong_sum[g] == b->strong_sum[g], "build: with its strong sum");
    if (!f) return NULL;
    if (WB == CI) indexed = 1;
    return b;
}
rs_block_sig_t *vp_badd(hashtable_t *t, rs_block_sig_t *e)
{
    VP_ASSERT(t == T && e == vp_entry(CI), "build: adds the block itself");
    if (t->count + 1 == t->size) return NULL;
    t->count++;
    if (WB == CI) indexed = 1;
    return e;
}
static int newn;
hashtable_t *vp_bnew(int size)
{
    VP_ASSERT(size == SG.count, "build: table for all blocks");
    newn++;
    _Bool f;
    if (f) return NULL;
    T->count = 0;
    VP_ASSUME(T->size >= 1 + (long long)size * 10 / 7);
    return T;
}
void h_build(void)
{
    vp_params();
    SG.block_sigs = malloc((size_t)SG.size * ENT); VP_ASSUME(SG.block_sigs != NULL);
    SG.hashtable = NULL;
    hashtable_t tt; T = &tt;
    int w; WB = w; VP_ASSUME(w >= 0 && w < SG.count || SG.count == 0);
    int c = SG.count;
    rs_result r = rs_build_hash_table(&SG);
    VP_ASSERT(r == RS_DONE || r == RS_MEM_ERROR && !SG.hashtable, "build: done or out of memory");
    if (r == RS_DONE) {
        VP_ASSERT(SG.hashtable == T && SG.count == c && newn == 1, "build: the signature has its table");
        VP_ASSERT(c == 0 || indexed, "build: every block is indexed");
        VP_REACH("end");
    }
}
#endif
