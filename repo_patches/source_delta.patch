From 65b7b98b5dfbb22e707d2064c4937aa8a99e8142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 01/14] fix: reject signatures truncated inside a weak sum

A signature ending 1 to 3 bytes into a block's weak sum was reported as
loaded successfully, silently ignoring the partial block.
---
 src/readsums.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 61ba84a..929a7e3 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -57,7 +57,8 @@ static rs_result rs_loadsig_s_weak(rs_job_t *job)
     rs_result result;
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE) {
-        if (result == RS_INPUT_ENDED)   /* ending here is OK */
+        /* ending here is OK, but only if there is no partial weak sum left */
+        if (result == RS_INPUT_ENDED && rs_scoop_eof(job))
             return RS_DONE;
         return result;
     }
-- 
2.43.0


From 8ccfad29708fd3ac1255d4debef7faf208334674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 02/14] fix: do not treat zero magic or strong length in a
 signature as defaults

rs_sig_args() uses zero to request its defaults, so a signature stream with
a zero magic number was accepted as RK_BLAKE2, and one with a zero strong
sum length was read with the maximum strong sum length.
---
 src/readsums.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 929a7e3..e6b37e6 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -87,7 +87,7 @@ static rs_result rs_loadsig_s_stronglen(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
-    if (l < 0 || l > RS_MAX_STRONG_SUM_LENGTH) {
+    if (l < 1 || l > RS_MAX_STRONG_SUM_LENGTH) {
         rs_error("strong sum length %d is implausible", l);
         return RS_CORRUPT;
     }
@@ -127,6 +127,11 @@ static rs_result rs_loadsig_s_magic(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
+    if (l == 0) {
+        /* rs_sig_args() would take this as a request for the default. */
+        rs_error("got signature magic number %#x", l);
+        return RS_BAD_MAGIC;
+    }
     rs_trace("got signature magic %#x", l);
     job->sig_magic = l;
     job->statefn = rs_loadsig_s_blocklen;
-- 
2.43.0


From e87201818742b0c1d7641741de8b64b5a2ac2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 03/14] fix: split slack delta literals larger than INT_MAX

With an input buffer of 2GB or more the literal command length was
truncated to int, giving a corrupt delta.
---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index de65a8c..f169360 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -90,6 +90,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "librsync.h"
 #include "job.h"
@@ -368,6 +369,9 @@ static rs_result rs_delta_s_slack(rs_job_t *job)
 {
     size_t avail = rs_scoop_avail(job);
 
+    /* A literal command's length is an int, more input needs more commands. */
+    if (avail > INT_MAX)
+        avail = INT_MAX;
     if (avail) {
         rs_trace("emit slack delta for " FMT_SIZE " available bytes", avail);
         rs_emit_literal_cmd(job, (int)avail);
-- 
2.43.0


From 7d9b8e4a7537d3a449653405efd02b5c253f82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 04/14] fix: reject block lengths that do not fit in a
 signature

Block lengths over INT_MAX (e.g. "rdiff -b -1 signature") were accepted and
then truncated to int, aborting or silently using another block length.
---
 src/sumset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 5a87261..73f2358 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -21,6 +21,7 @@
  */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -146,6 +147,10 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
+    if (*block_len > INT_MAX) {
+        rs_error("invalid block_len=" FMT_SIZE, *block_len);
+        return RS_PARAM_ERROR;
+    }
     /* The recommended strong_len assumes the worst case new_fsize = old_fsize
        + 16MB with no matches. This results in comparing a block at every byte
        offset against all the blocks in the signature, or new_fsize*block_num
-- 
2.43.0


From 6106584a841d81bccc5d07bc42123e0d6af96bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 05/14] fix: never recommend or accept a strong length over the
 maximum

For huge files with tiny blocks the minimum strong length exceeded the MD4
maximum, so it was returned for strong_len=-1, and too large values passed
as merely smaller than recommended.
---
 src/sumset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 73f2358..82fe033 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -168,6 +168,8 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
             2 + (rs_long_ln2(old_fsize + ((rs_long_t)1 << 24)) +
                  rs_long_ln2(old_fsize / *block_len + 1) + 7) / 8;
     }
+    if (min_strong_len > max_strong_len)
+        min_strong_len = max_strong_len;
     if (*strong_len == 0)
         *strong_len = max_strong_len;
     else if (*strong_len == -1)
-- 
2.43.0


From 3cb1851863c8cebe9721c31b12930b2a0507b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 06/14] fix: avoid int overflow sizing buffers for huge block
 lengths

Block lengths of 2^29 or more, including ones read from a signature file,
overflowed the input buffer size and aborted or used a tiny buffer.
---
 src/whole.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/whole.c b/src/whole.c
index ebce253..934beaa 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -28,6 +28,7 @@
                                */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include "librsync.h"
@@ -37,6 +38,12 @@
 #include "buf.h"
 #include "librsync_export.h"
 
+/** Get the buffer size for 4 units of len bytes, limited to fit in an int. */
+static int rs_bufsize4(rs_long_t len)
+{
+    return len > INT_MAX / 4 ? INT_MAX : 4 * (int)len;
+}
+
 /** Whole file IO buffer sizes. */
 LIBRSYNC_EXPORT int rs_inbuflen = 0, rs_outbuflen = 0;
 
@@ -78,7 +85,7 @@ rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
         return r;
     job = rs_sig_begin(block_len, strong_len, sig_magic);
     /* Size inbuf for 4 blocks, outbuf for header + 4 blocksums. */
-    r = rs_whole_run(job, old_file, sig_file, 4 * (int)block_len,
+    r = rs_whole_run(job, old_file, sig_file, rs_bufsize4((rs_long_t)block_len),
                      12 + 4 * (4 + (int)strong_len));
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
@@ -114,7 +121,8 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
+                     rs_bufsize4((rs_long_t)MAX_DELTA_CMD + sig->block_len),
+                     4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
-- 
2.43.0


From baae0d59588eeda9c6d534f4189ac779bb8f466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 07/14] fix: report write errors that only show when output is
 flushed

Output that still fits in the stdio buffer is only written when the file is
closed, so e.g. a full disk went unnoticed and success was returned.
---
 src/whole.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/whole.c b/src/whole.c
index 934beaa..e709cd0 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -28,6 +28,7 @@
                                */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <string.h>
@@ -36,6 +37,7 @@
 #include "sumset.h"
 #include "job.h"
 #include "buf.h"
+#include "trace.h"
 #include "librsync_export.h"
 
 /** Get the buffer size for 4 units of len bytes, limited to fit in an int. */
@@ -64,6 +66,11 @@ rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
     result =
         rs_job_drive(job, &buf, in_fb ? rs_infilebuf_fill : NULL, in_fb,
                      out_fb ? rs_outfilebuf_drain : NULL, out_fb);
+    /* Writes might still be buffered, and can still fail. */
+    if (result == RS_DONE && out_file && fflush(out_file)) {
+        rs_error("error flushing output file: %s", strerror(errno));
+        result = RS_IO_ERROR;
+    }
     if (in_fb)
         rs_filebuf_free(in_fb);
     if (out_fb)
-- 
2.43.0


From fe6200c770e216f5a2b4acaade8d050859e0ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 08/14] fix: avoid int overflow sizing hashtables for over 214M
 entries

The overflow made the hashtable tiny, so most blocks of very large
signatures could not be added and never matched.
---
 src/hashtable.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index ff3f29c..b29dc16 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -19,6 +19,7 @@
  * Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
  */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "hashtable.h"
 
@@ -39,7 +40,13 @@ hashtable_t *_hashtable_new(int size)
     unsigned size2, bits2;
 
     /* Adjust requested size to account for max load factor. */
-    size = 1 + size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    const long long min_size =
+        1 + (long long)size * HASHTABLE_LOADFACTOR_DEN /
+        HASHTABLE_LOADFACTOR_NUM;
+    /* The largest power of 2 size that fits in an int. */
+    if (min_size > INT_MAX / 2 + 1)
+        return NULL;
+    size = (int)min_size;
     /* Use next power of 2 larger than the requested size and get mask bits. */
     for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
     if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
-- 
2.43.0


From 3327229e3bb201c36f38cc4e97f3e18987300f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 09/14] fix: do not count base64 padding bits as a decoded byte

Decoding returned one byte too many for data whose length is not a multiple
of 3.
---
 src/base64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index 873746e..b2e10a1 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,11 +31,11 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i, n;
+    int bit_offset, byte_offset, idx, i;
     unsigned char *d = (unsigned char *)s;
     char *p;
 
-    n = i = 0;
+    i = 0;
 
     while (*s && (p = strchr(b64, *s))) {
         idx = (int)(p - b64);
@@ -44,16 +44,15 @@ size_t rs_unbase64(char *s)
         d[byte_offset] &= (unsigned char)~((1 << (8 - bit_offset)) - 1);
         if (bit_offset < 3) {
             d[byte_offset] |= (unsigned char)(idx << (2 - bit_offset));
-            n = byte_offset + 1;
         } else {
             d[byte_offset] |= (unsigned char)(idx >> (bit_offset - 2));
             d[byte_offset + 1] = (unsigned char)(idx << (8 - (bit_offset - 2)));
-            n = byte_offset + 2;
         }
         s++;
         i++;
     }
-    return n;
+    /* Leftover bits are padding, not another byte. */
+    return ((size_t)i * 6) / 8;
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
-- 
2.43.0


From be991bdcaf54870541838d81f3c77281a0a7d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:08 +0000
Subject: [PATCH 10/14] fix: never write past the buffer when formatting
 statistics

When a buffer was too small for the text, snprintf was called again with a
position past its end and a size that had wrapped around.
---
 src/stats.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 5fabb8d..512613d 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -47,6 +47,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
         op = "noop";
 
     len = snprintf(buf, size, "%s statistics: ", op);
+    if ((size_t)len >= size)
+        return buf;             // buf is full
 
     if (stats->lit_cmds) {
         len +=
@@ -54,6 +56,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      "literal[%d cmds, " FMT_LONG " bytes, " FMT_LONG
                      " cmdbytes] ", stats->lit_cmds, stats->lit_bytes,
                      stats->lit_cmdbytes);
+        if ((size_t)len >= size)
+            return buf;         // buf is full
     }
 
     if (stats->sig_cmds) {
@@ -61,6 +65,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "in-place-signature[" FMT_LONG " cmds, " FMT_LONG
                      " bytes] ", stats->sig_cmds, stats->sig_bytes);
+        if ((size_t)len >= size)
+            return buf;         // buf is full
     }
 
     if (stats->copy_cmds || stats->false_matches) {
@@ -70,6 +76,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      " cmdbytes, %d false]", stats->copy_cmds,
                      stats->copy_bytes, stats->copy_cmdbytes,
                      stats->false_matches);
+        if ((size_t)len >= size)
+            return buf;         // buf is full
     }
 
     if (stats->sig_blocks) {
@@ -77,6 +85,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "signature[" FMT_LONG " blocks, " FMT_SIZE
                      " bytes per block]", stats->sig_blocks, stats->block_len);
+        if ((size_t)len >= size)
+            return buf;         // buf is full
     }
 
     sec = (int)(stats->end - stats->start);
-- 
2.43.0


From b025315a1c7f07e296e1b89ec197f9e95d3bc422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:22 +0000
Subject: [PATCH 11/14] fix: avoid signed overflow decoding 8 byte integers

Values with the top bit set, which only malformed deltas contain, were
shifted as signed integers, which is undefined.
---
 src/netint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/netint.c b/src/netint.c
index ce3f8e3..adbedc1 100644
--- a/src/netint.c
+++ b/src/netint.c
@@ -29,6 +29,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <stdint.h>
 #include "librsync.h"
 #include "netint.h"
 #include "scoop.h"
@@ -81,7 +82,7 @@ rs_result rs_suck_netint(rs_job_t *job, rs_long_t *val, int len)
     if ((result = rs_scoop_read(job, len, (void **)&buf)) == RS_DONE) {
         *val = 0;
         for (i = 0; i < len; i++)
-            *val = (*val << 8) | (rs_long_t)buf[i];
+            *val = (rs_long_t)((uint64_t)*val << 8) | (rs_long_t)buf[i];
     }
     return result;
 }
-- 
2.43.0


From a2ab5ae37013413352d789ed2c3826b346c3bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:23 +0000
Subject: [PATCH 12/14] fix: never overwrite an existing file that cannot be
 read

Without force, rs_file_open() took a file it could not open for reading as
missing, and then truncated it if it was writable.
---
 src/fileutil.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 676d2d0..573ff6c 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -100,10 +100,12 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
     }
 
     if (!force && is_write) {
-        if ((f = fopen(filename, "rb"))) {
-            // File exists
+        errno = 0;
+        if ((f = fopen(filename, "rb")) || errno != ENOENT) {
+            // File exists, even if we can't read it.
             rs_error("File exists \"%s\", aborting!", filename);
-            fclose(f);
+            if (f)
+                fclose(f);
             exit(RS_IO_ERROR);
         }
     }
-- 
2.43.0


From 6e82a8276b05a9545df0bde8a4469fb46944b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 13/14] fix: do not take weak sums 0 and 0xffffffff for equal
 when matching blocks

---
 src/sumset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 82fe033..9691191 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -64,6 +64,9 @@ static void rs_block_match_init(rs_block_match_t *match, rs_signature_t *sig,
 static inline int rs_block_match_cmp(rs_block_match_t *match,
                                      const rs_block_sig_t *block_sig)
 {
+    /* The hashtable uses the same key for weak sums 0 and 0xffffffff. */
+    if (match->block_sig.weak_sum != block_sig->weak_sum)
+        return 1;
     /* If buf is not NULL, the strong sum is yet to be calculated. */
     if (match->buf) {
 #ifndef HASHTABLE_NSTATS
-- 
2.43.0


From c7b74c0f96234f194d6c42b7371ec35f4f2c7b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 14/14] fix: keep scanning when a pending match is longer than
 a literal command

---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index f169360..e548a51 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -212,6 +212,10 @@ static inline rs_result rs_getinput(rs_job_t *job, size_t block_len)
 {
     size_t min_len = block_len + MAX_DELTA_CMD;
 
+    /* A match of a large block pending behind blocked output can put scan_pos
+       past MAX_DELTA_CMD, scanning on still needs a block after it. */
+    if (job->scan_pos >= MAX_DELTA_CMD)
+        min_len = job->scan_pos + block_len + 1;
     job->scan_len = rs_scoop_avail(job);
     if (job->scan_len < min_len && !job->stream->eof_in)
         job->scan_len = min_len;
-- 
2.43.0

