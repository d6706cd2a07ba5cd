From 565122c05f5a8ed57c7fff540b63f8d1a4efd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 01/66] fix: avoid undefined signed shift when parsing
 big-endian integers

---
 src/drpm_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index 6ef0f2f..f5dd0e4 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -42,7 +42,7 @@ uint16_t parse_be16(const unsigned char buffer[2])
 /* Reads 32-byte integer in network byte order from buffer. */
 uint32_t parse_be32(const unsigned char buffer[4])
 {
-    return (0xFF000000 & (buffer[0] << 24)) |
+    return (0xFF000000 & ((uint32_t)buffer[0] << 24)) |
            (0x00FF0000 & (buffer[1] << 16)) |
            (0x0000FF00 & (buffer[2] << 8)) |
            (0x000000FF & buffer[3]);
-- 
2.43.0


From e61586ad53edc9f633a4e5fc68e469fda1e7e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 02/66] fix: avoid signed shift and sign extension of
 little-endian ELF fields

---
 src/drpm_apply.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index fc6e032..ae65175 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -495,7 +495,7 @@ uint16_t elf16(const unsigned char *buf, bool little_endian)
 uint32_t elf32(const unsigned char *buf, bool little_endian)
 {
     if (little_endian)
-        return buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        return buf[0] | buf[1] << 8 | buf[2] << 16 | (uint32_t)buf[3] << 24;
     return parse_be32(buf);
 }
 
@@ -509,7 +509,7 @@ uint64_t elf64(const unsigned char *buf, bool little_endian, bool is64)
     }
 
     if (little_endian)
-        return buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        return buf[0] | buf[1] << 8 | buf[2] << 16 | (uint32_t)buf[3] << 24;
     return parse_be32(buf);
 }
 
-- 
2.43.0


From c643280ee023f1f71ddb39ce9d996a163aa634ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 03/66] fix: reject sequences that refer to files beyond the
 RPM header's file list

---
 src/drpm_apply.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index ae65175..7cc0512 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -115,6 +115,10 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             i++;
         }
         even = !even;
+        if (shift > 60) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
         if ((num_buf & (1 << 3)) != 0) {
             num_buf ^= 1 << 3;
             if (shift)
@@ -146,7 +150,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         }
 
         while (number-- > 0) {
-            if (positions_len > file_count || pos > file_count) {
+            if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From bad26d1aff2db1c7bf1434f6d5754f96d85fd797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 04/66] fix: do not overflow digest buffers when a file digest
 string is too long

---
 src/drpm_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index f5dd0e4..1de900b 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -146,12 +146,14 @@ ssize_t parse_hexnum(const char *str, size_t size)
 
 bool parse_md5(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == MD5_DIGEST_LENGTH;
+    return strlen(source) == MD5_DIGEST_LENGTH * 2 &&
+           parse_hex(dest, source) == MD5_DIGEST_LENGTH;
 }
 
 bool parse_sha256(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
+    return strlen(source) == SHA256_DIGEST_LENGTH * 2 &&
+           parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
 }
 
 /* Reallocates memory for <*buffer> <threshold> bytes at a time>. */
-- 
2.43.0


From e37005269052fae7e2673c402fc7ad0cc7f5f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 05/66] fix: do not free a pointer into the section headers
 when checking for prelink

---
 src/drpm_apply.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 7cc0512..7bc20d2 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -530,6 +530,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int i;
     int stridx;
     unsigned char *sects = NULL;
+    unsigned char *strhdr;
     unsigned char *strsect = NULL;
     unsigned slen;
     unsigned o;
@@ -583,14 +584,14 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    strsect = sects + stridx * ssiz;
-    if (elf32(strsect + 4, le) != 3) {
+    strhdr = sects + stridx * ssiz;
+    if (elf32(strhdr + 4, le) != 3) {
         is_prelinked = false;
         goto cleanup;
     }
 
-    soff = elf64(is64 ? strsect + 24 : strsect + 16, le, is64);
-    slen = elf64(is64 ? strsect + 32 : strsect + 20, le, is64);
+    soff = elf64(is64 ? strhdr + 24 : strhdr + 16, le, is64);
+    slen = elf64(is64 ? strhdr + 32 : strhdr + 20, le, is64);
     if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
-- 
2.43.0


From 6207d9c57d0a21f7a92a111c970a4552d5dab9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 06/66] fix: close the checked file when the prelink test fails

---
 src/drpm_apply.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 7bc20d2..506a2c6 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -306,8 +306,10 @@ int check_filesize(const char *filename, unsigned short digest_algo,
         if ((filedesc = open(filename, O_RDONLY)) < 0)
             return DRPM_ERR_IO;
         if ((read_len = read(filedesc, buf, 128)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -349,7 +351,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     if (stats.st_size > (off_t)filesize) {
         if ((read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
             if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
-                return error;
+                goto cleanup;
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
-- 
2.43.0


From 49d5582e994f42f72b49e85aa95b0ed2203cd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 07/66] fix: avoid arithmetic on a null pointer for empty
 internal copies

---
 src/drpm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 204ab79..3a06b84 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -721,9 +721,11 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         int_copy_len = *int_copies++;
 
         /* performing internal copy */
-        if ((error = compstrm_wrapper_write(csw, int_data, int_copy_len)) != DRPM_ERR_OK)
-            goto cleanup;
-        int_data += int_copy_len;
+        if (int_copy_len > 0) {
+            if ((error = compstrm_wrapper_write(csw, int_data, int_copy_len)) != DRPM_ERR_OK)
+                goto cleanup;
+            int_data += int_copy_len;
+        }
     }
 
     if ((error = compstrm_wrapper_finish(csw, &comp_data, &comp_data_len)) != DRPM_ERR_OK)
-- 
2.43.0


From 886ad436362c64951899c4d17d458e9d124ca699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 08/66] fix: reject compression levels that the compressor does
 not support

---
 src/drpm_compstrm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 758dea1..5ef2a3d 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -301,6 +301,8 @@ int init_bzip2(struct compstrm *strm, int level)
     case BZ_MEM_ERROR:
         BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
+    case BZ_PARAM_ERROR:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -326,6 +328,8 @@ int init_gzip(struct compstrm *strm, int level)
     case Z_MEM_ERROR:
         deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
+    case Z_STREAM_ERROR:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -343,7 +347,8 @@ int init_lzma(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 2;
 
-    lzma_lzma_preset(&options, level);
+    if (lzma_lzma_preset(&options, level))
+        return DRPM_ERR_FORMAT;
 
     switch (lzma_alone_encoder(&strm->stream.lzma, &options)) {
     case LZMA_OK:
-- 
2.43.0


From eccf4f90d6d2a1e18a3c76e5ac313b57e9444a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 09/66] fix: free zstd compression buffers and context on
 errors

---
 src/drpm_compstrm.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 5ef2a3d..cffccb0 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -247,6 +247,7 @@ cleanup:
 #ifdef WITH_ZSTD
 int finish_zstd(struct compstrm *strm)
 {
+    int error = DRPM_ERR_OK;
     size_t const buffOutSize = ZSTD_CStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
     if (buffOut == NULL)
@@ -259,13 +260,17 @@ int finish_zstd(struct compstrm *strm)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_end);
-        if (ZSTD_isError(remaining))
-            return DRPM_ERR_OTHER;
+        if (ZSTD_isError(remaining)) {
+            error = DRPM_ERR_OTHER;
+            break;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
-            return DRPM_ERR_MEMORY;
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            break;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
@@ -273,7 +278,7 @@ int finish_zstd(struct compstrm *strm)
 
     free(buffOut);
     ZSTD_freeCCtx(strm->stream.zstd_context);
-    return DRPM_ERR_OK;
+    return error;
 }
 
 #endif
@@ -413,8 +418,10 @@ int init_zstd(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 19;
 
-    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level)))
+    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level))) {
+        ZSTD_freeCCtx(strm->stream.zstd_context);
         return DRPM_ERR_OTHER;
+    }
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
@@ -739,6 +746,7 @@ int writechunk_lzip(struct compstrm *strm, size_t in_len, const void *in_buffer)
 #ifdef WITH_ZSTD
 int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
 {
+    int error = DRPM_ERR_OK;
     size_t const buffOutSize = ZSTD_CStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
     if (buffOut == NULL)
@@ -749,13 +757,17 @@ int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_continue);
-        if (ZSTD_isError(remaining))
-            return DRPM_ERR_OTHER;
+        if (ZSTD_isError(remaining)) {
+            error = DRPM_ERR_OTHER;
+            break;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
-            return DRPM_ERR_MEMORY;
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            break;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
@@ -763,6 +775,6 @@ int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
 
     free(buffOut);
 
-    return DRPM_ERR_OK;
+    return error;
 }
 #endif
-- 
2.43.0


From 0f0167f795f605ba3ee180bc7940549e39ebb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 10/66] fix: free compressor state when a compression stream is
 not finished

---
 src/drpm_compstrm.c | 70 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 6 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index cffccb0..c8611c1 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -55,11 +55,15 @@ struct compstrm {
     } stream;
     int (*write_chunk)(struct compstrm *, size_t, const void *);
     int (*finish)(struct compstrm *);
+    void (*end)(struct compstrm *);
     bool finished;
 };
 
+static void end_bzip2(struct compstrm *);
 static int finish_bzip2(struct compstrm *);
+static void end_gzip(struct compstrm *);
 static int finish_gzip(struct compstrm *);
+static void end_lzma(struct compstrm *);
 static int finish_lzma(struct compstrm *);
 static int init_bzip2(struct compstrm *, int);
 static int init_gzip(struct compstrm *, int);
@@ -71,6 +75,7 @@ static int writechunk_gzip(struct compstrm *, size_t, const void *);
 static int writechunk_lzma(struct compstrm *, size_t, const void *);
 
 #ifdef HAVE_LZLIB_DEVEL
+static void end_lzip(struct compstrm *);
 static int finish_lzip(struct compstrm *);
 static int init_lzip(struct compstrm *, int);
 static int writechunk_lzip(struct compstrm *, size_t, const void *);
@@ -92,11 +97,48 @@ static int lzip_error(struct compstrm *strm)
 #endif
 
 #ifdef WITH_ZSTD
+static void end_zstd(struct compstrm *);
 static int finish_zstd(struct compstrm *);
 static int init_zstd(struct compstrm *, int);
 static int writechunk_zstd(struct compstrm *, size_t, const void *);
 #endif
 
+/* Functions for freeing the state of the compressors. */
+
+void end_bzip2(struct compstrm *strm)
+{
+    BZ2_bzCompressEnd(&strm->stream.bzip2);
+    strm->end = NULL;
+}
+
+void end_gzip(struct compstrm *strm)
+{
+    deflateEnd(&strm->stream.gzip);
+    strm->end = NULL;
+}
+
+void end_lzma(struct compstrm *strm)
+{
+    lzma_end(&strm->stream.lzma);
+    strm->end = NULL;
+}
+
+#ifdef HAVE_LZLIB_DEVEL
+void end_lzip(struct compstrm *strm)
+{
+    LZ_compress_close(strm->stream.lzip);
+    strm->end = NULL;
+}
+#endif
+
+#ifdef WITH_ZSTD
+void end_zstd(struct compstrm *strm)
+{
+    ZSTD_freeCCtx(strm->stream.zstd_context);
+    strm->end = NULL;
+}
+#endif
+
 /* Functions for finishing compression for individual methods. */
 
 int finish_bzip2(struct compstrm *strm)
@@ -127,7 +169,7 @@ int finish_bzip2(struct compstrm *strm)
     } while (ret != BZ_STREAM_END);
 
 cleanup:
-    BZ2_bzCompressEnd(&strm->stream.bzip2);
+    end_bzip2(strm);
 
     return error;
 }
@@ -159,7 +201,7 @@ int finish_gzip(struct compstrm *strm)
     } while (strm->stream.gzip.avail_out == 0);
 
 cleanup:
-    deflateEnd(&strm->stream.gzip);
+    end_gzip(strm);
 
     return error;
 }
@@ -202,7 +244,7 @@ int finish_lzma(struct compstrm *strm)
     } while (ret != LZMA_STREAM_END);
 
 cleanup:
-    lzma_end(&strm->stream.lzma);
+    end_lzma(strm);
 
     return error;
 }
@@ -238,7 +280,7 @@ int finish_lzip(struct compstrm *strm)
     } while (!LZ_compress_finished(strm->stream.lzip));
 
 cleanup:
-    LZ_compress_close(strm->stream.lzip);
+    end_lzip(strm);
 
     return error;
 }
@@ -277,7 +319,7 @@ int finish_zstd(struct compstrm *strm)
     } while(remaining != 0);
 
     free(buffOut);
-    ZSTD_freeCCtx(strm->stream.zstd_context);
+    end_zstd(strm);
     return error;
 }
 
@@ -310,6 +352,8 @@ int init_bzip2(struct compstrm *strm, int level)
         return DRPM_ERR_FORMAT;
     }
 
+    strm->end = end_bzip2;
+
     return DRPM_ERR_OK;
 }
 
@@ -337,6 +381,8 @@ int init_gzip(struct compstrm *strm, int level)
         return DRPM_ERR_FORMAT;
     }
 
+    strm->end = end_gzip;
+
     return DRPM_ERR_OK;
 }
 
@@ -364,6 +410,8 @@ int init_lzma(struct compstrm *strm, int level)
         return DRPM_ERR_FORMAT;
     }
 
+    strm->end = end_lzma;
+
     return DRPM_ERR_OK;
 }
 
@@ -388,6 +436,8 @@ int init_xz(struct compstrm *strm, int level)
         return DRPM_ERR_FORMAT;
     }
 
+    strm->end = end_lzma;
+
     return DRPM_ERR_OK;
 }
 
@@ -404,6 +454,8 @@ int init_lzip(struct compstrm *strm, int level)
 
     if ((error = lzip_error(strm)) != DRPM_ERR_OK)
         LZ_compress_close(strm->stream.lzip);
+    else
+        strm->end = end_lzip;
 
     return error;
 }
@@ -425,6 +477,7 @@ int init_zstd(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
+    strm->end = end_zstd;
 
     return DRPM_ERR_OK;
 }
@@ -436,6 +489,9 @@ int compstrm_destroy(struct compstrm **strm)
     if (strm == NULL || *strm == NULL)
         return DRPM_ERR_PROG;
 
+    if ((*strm)->end != NULL)
+        (*strm)->end(*strm);
+
     free((*strm)->data);
     free(*strm);
     *strm = NULL;
@@ -460,6 +516,7 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
     (*strm)->data_len = 0;
     (*strm)->data_pos = 0;
     (*strm)->filedesc = filedesc;
+    (*strm)->end = NULL;
     (*strm)->finished = false;
 
     switch (comp) {
@@ -496,7 +553,8 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
         break;
 #endif
     default:
-        return DRPM_ERR_PROG;
+        error = DRPM_ERR_PROG;
+        goto cleanup_fail;
     }
 
     return DRPM_ERR_OK;
-- 
2.43.0


From ec8bb5d69713a44ac4a925c2d526acf797a25529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 11/66] fix: report memory allocation errors when copying make
 options

---
 src/drpm_options.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 7df5af4..cf5f211 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -105,19 +105,19 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
 
     if (opts_src->seqfile != NULL) {
         if ((opts_dst->seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->seqfile, opts_src->seqfile);
     }
 
     if (opts_src->oldrpmprint != NULL) {
         if ((opts_dst->oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldrpmprint, opts_src->oldrpmprint);
     }
 
     if (opts_src->oldpatchrpm != NULL) {
         if ((opts_dst->oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldpatchrpm, opts_src->oldpatchrpm);
     }
 
-- 
2.43.0


From 066a52a30fd2bf6016b66b87a003adab89d9b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 12/66] fix: refuse lzip compression when built without lzlib

---
 src/drpm_options.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index cf5f211..e10ac8f 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -165,7 +165,9 @@ int drpm_make_options_set_delta_comp(struct drpm_make_options *opts, unsigned sh
     case DRPM_COMP_BZIP2:
     case DRPM_COMP_LZMA:
     case DRPM_COMP_XZ:
+#ifdef HAVE_LZLIB_DEVEL
     case DRPM_COMP_LZIP:
+#endif
 #ifdef WITH_ZSTD
     case DRPM_COMP_ZSTD:
 #endif
@@ -212,7 +214,9 @@ int drpm_make_options_set_addblk_comp(struct drpm_make_options *opts, unsigned s
     case DRPM_COMP_BZIP2:
     case DRPM_COMP_LZMA:
     case DRPM_COMP_XZ:
+#ifdef HAVE_LZLIB_DEVEL
     case DRPM_COMP_LZIP:
+#endif
 #ifdef WITH_ZSTD
     case DRPM_COMP_ZSTD:
 #endif
-- 
2.43.0


From 38600fa275a2f326e4ac6f8f9125fbce61c864e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 13/66] fix: free the zstd output buffer when decompression
 fails

---
 src/drpm_decompstrm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index ec3115e..bded22b 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -759,23 +759,28 @@ int readchunk_zstd(struct decompstrm *strm)
     while (input.pos < input.size) {
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
-        if (ZSTD_isError(ret))
+        if (ZSTD_isError(ret)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     }
 
+    free(buffOut);
+
     strm->comp_size += in_len;
 
     if (strm->md5 != NULL && MD5_Update(strm->md5, in_buffer, in_len) != 1)
         return DRPM_ERR_OTHER;
 
-    free(buffOut);
     return DRPM_ERR_OK;
 }
 #endif
-- 
2.43.0


From fc9217e77e8f248d135457a011dfcfcb12a0d50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 14/66] fix: do not mistake corrupt compressed data for the end
 of the stream

---
 src/drpm_decompstrm.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index bded22b..1941c5d 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -63,6 +63,7 @@ struct decompstrm {
         ZSTD_DCtx *zstd_context;
 #endif
     } stream;
+    bool eof;
     bool lzip_eof;
     int (*read_chunk)(struct decompstrm *);
     void (*finish)(struct decompstrm *);
@@ -286,6 +287,7 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     (*strm)->data_len = 0;
     (*strm)->data_pos = 0;
     (*strm)->filedesc = filedesc;
+    (*strm)->eof = false;
     (*strm)->comp_size = 0;
     (*strm)->md5 = md5;
     (*strm)->buffer = buffer;
@@ -424,8 +426,10 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         switch ((error = strm->read_chunk(strm))) {
         case DRPM_ERR_OK:
             break;
-        case DRPM_ERR_FORMAT: // nothing more to read
-            eof = true;
+        case DRPM_ERR_FORMAT:
+            if (!strm->eof) // corrupt data
+                return error;
+            eof = true; // nothing more to read
             break;
         default:
             return error;
@@ -466,8 +470,10 @@ int readchunk(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if ((data_tmp = realloc(strm->data, strm->data_len + in_len)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -502,8 +508,10 @@ int readchunk_bzip2(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.bzip2.next_in = in_buffer;
     strm->stream.bzip2.avail_in = in_len;
@@ -555,8 +563,10 @@ int readchunk_gzip(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.gzip.next_in = in_buffer;
     strm->stream.gzip.avail_in = in_len;
@@ -609,8 +619,10 @@ int readchunk_lzma(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.lzma.next_in = in_buffer;
     strm->stream.lzma.avail_in = in_len;
@@ -664,8 +676,10 @@ int readchunk_lzip(struct decompstrm *strm)
     int wr;
     int rd;
 
-    if (strm->lzip_eof)
+    if (strm->lzip_eof) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if (strm->filedesc < 0) {
         in_len = MIN(CHUNK_SIZE, strm->buffer_len);
@@ -746,8 +760,10 @@ int readchunk_zstd(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     size_t const buffOutSize = ZSTD_DStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
-- 
2.43.0


From 3e96a2d354a0299aba86c03ad25fc80eae44554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 15/66] fix: avoid integer overflows when allocating buffers
 for delta fields

---
 src/drpm_read.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 6e2ffea..0bc4f51 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -121,7 +121,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if ((delta->src_nevr = malloc(src_nevr_len + 1)) == NULL) {
+    if ((delta->src_nevr = malloc((size_t)src_nevr_len + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
@@ -190,9 +190,14 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 (error = decompstrm_read_be32(stream, &delta->offadj_elems_count)) != DRPM_ERR_OK)
                 goto cleanup;
 
+            if (delta->offadj_elems_count > UINT32_MAX / 2) {
+                error = DRPM_ERR_OVERFLOW;
+                goto cleanup;
+            }
+
             if (delta->offadj_elems_count > 0) {
                 offadj_elems_size = delta->offadj_elems_count * 2;
-                if ((delta->offadj_elems = malloc(offadj_elems_size * 4)) == NULL) {
+                if ((delta->offadj_elems = malloc((size_t)offadj_elems_size * 4)) == NULL) {
                     error = DRPM_ERR_MEMORY;
                     goto cleanup;
                 }
@@ -240,11 +245,17 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         (error = decompstrm_read_be32(stream, &delta->ext_copies_count)) != DRPM_ERR_OK)
         goto cleanup;
 
+    if (delta->int_copies_count > UINT32_MAX / 2 ||
+        delta->ext_copies_count > UINT32_MAX / 2) {
+        error = DRPM_ERR_OVERFLOW;
+        goto cleanup;
+    }
+
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
     if (int_copies_size > 0) {
-        if ((delta->int_copies = malloc(int_copies_size * 4)) == NULL) {
+        if ((delta->int_copies = malloc((size_t)int_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -257,7 +268,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     }
 
     if (ext_copies_size > 0) {
-        if ((delta->ext_copies = malloc(ext_copies_size * 4)) == NULL) {
+        if ((delta->ext_copies = malloc((size_t)ext_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -379,7 +390,7 @@ int readdelta_rpmonly(int filedesc, struct deltarpm *delta)
 
     /* reading target NEVR */
 
-    if ((delta->head.tgt_nevr = malloc(tgt_nevr_len + 1)) == NULL)
+    if ((delta->head.tgt_nevr = malloc((size_t)tgt_nevr_len + 1)) == NULL)
         return DRPM_ERR_MEMORY;
 
     if ((bytes_read = read(filedesc, delta->head.tgt_nevr, tgt_nevr_len)) < 0)
@@ -506,17 +517,17 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
     dst->ext_copies_size = src->ext_copies_count * 2;
 
     if ((dst->filename = malloc(strlen(src->filename) + 1)) == NULL ||
-        (dst->sequence = malloc(src->sequence_len * 2 + 1)) == NULL ||
+        (dst->sequence = malloc((size_t)src->sequence_len * 2 + 1)) == NULL ||
         (dst->src_nevr = malloc(strlen(src->src_nevr) + 1)) == NULL ||
         (src->tgt_comp_param_len > 0 &&
-         (dst->tgt_comp_param = malloc(src->tgt_comp_param_len * 2 + 1)) == NULL) ||
-        (dst->tgt_leadsig = malloc(src->tgt_leadsig_len * 2 + 1)) == NULL ||
+         (dst->tgt_comp_param = malloc((size_t)src->tgt_comp_param_len * 2 + 1)) == NULL) ||
+        (dst->tgt_leadsig = malloc((size_t)src->tgt_leadsig_len * 2 + 1)) == NULL ||
         (dst->offadj_elems_size > 0 &&
-         (dst->offadj_elems = malloc(dst->offadj_elems_size * 4)) == NULL) ||
+         (dst->offadj_elems = malloc((size_t)dst->offadj_elems_size * 4)) == NULL) ||
         (dst->int_copies_size > 0 &&
-         (dst->int_copies = malloc(dst->int_copies_size * 4)) == NULL) ||
+         (dst->int_copies = malloc((size_t)dst->int_copies_size * 4)) == NULL) ||
         (dst->ext_copies_size > 0 &&
-         (dst->ext_copies = malloc(dst->ext_copies_size * 4)) == NULL)) {
+         (dst->ext_copies = malloc((size_t)dst->ext_copies_size * 4)) == NULL)) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
@@ -531,11 +542,11 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
         dump_hex(dst->tgt_comp_param, src->tgt_comp_param, src->tgt_comp_param_len);
 
     if (dst->offadj_elems_size > 0)
-        memcpy(dst->offadj_elems, src->offadj_elems, dst->offadj_elems_size * 4);
+        memcpy(dst->offadj_elems, src->offadj_elems, (size_t)dst->offadj_elems_size * 4);
     if (dst->int_copies_size > 0)
-        memcpy(dst->int_copies, src->int_copies, dst->int_copies_size * 4);
+        memcpy(dst->int_copies, src->int_copies, (size_t)dst->int_copies_size * 4);
     if (dst->ext_copies_size > 0)
-        memcpy(dst->ext_copies, src->ext_copies, dst->ext_copies_size * 4);
+        memcpy(dst->ext_copies, src->ext_copies, (size_t)dst->ext_copies_size * 4);
 
     if (src->type == DRPM_TYPE_STANDARD) {
         if ((error = rpm_get_nevr(src->head.tgt_rpm, &dst->tgt_nevr)) != DRPM_ERR_OK)
-- 
2.43.0


From aa466ca0a74fcaead94dd9e0197ce16da24f4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 16/66] fix: reject unknown delta versions

---
 src/drpm_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 0bc4f51..f07b39d 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -110,6 +110,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
 
     delta->version = version % 256 - '0';
 
+    if (delta->version < 1 || delta->version > 3) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+
     if (delta->version < 3 && delta->type == DRPM_TYPE_RPMONLY) {
         // rpm-only deltas only supported since version 3
         error = DRPM_ERR_FORMAT;
-- 
2.43.0


From f48936f106f1af98ddb1bee71fc829f6d0f9e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 17/66] fix: free the RPM header when reading a standard delta
 fails

---
 src/drpm_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index f07b39d..c3b8490 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -433,6 +433,8 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if ((error = rpm_read(&rpmst, delta->filename, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK)
         return error;
 
+    delta->head.tgt_rpm = rpmst;
+
     /* reading target compression from header (used for older delta versions) */
     if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
         return error;
@@ -440,8 +442,6 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
 
-    delta->head.tgt_rpm = rpmst;
-
     return DRPM_ERR_OK;
 }
 
-- 
2.43.0


From e6753089763fc7a42c58d1cd4baf961cebd45c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 18/66] fix: free the RPM structure when reading an RPM fails

---
 src/drpm_rpm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index a39510a..43c1ef0 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -285,8 +285,10 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     rpm_init(*rpmst);
 
     // hack: extra '\0' to prevent rpmlib from compressing (see rpmio.c)
-    if ((file = Fopen(filename, "rb\0")) == NULL)
+    if ((file = Fopen(filename, "rb\0")) == NULL) {
+        rpm_destroy(rpmst);
         return DRPM_ERR_IO;
+    }
 
     if (Fread((*rpmst)->lead, 1, RPMLEAD_SIZE, file) != RPMLEAD_SIZE ||
         memcmp((*rpmst)->lead, magic_rpm, 4) != 0 ||
@@ -342,7 +344,7 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     goto cleanup;
 
 cleanup_fail:
-    rpm_free(*rpmst);
+    rpm_destroy(rpmst);
 
 cleanup:
     free(signature);
-- 
2.43.0


From 6cd09dea71f3c87a25f28d50f06c38a4fe192379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 19/66] fix: do not read past the end of the lead and signature
 from a delta

---
 src/drpm_rpm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 43c1ef0..576ceb0 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -552,6 +552,7 @@ cleanup:
 int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, size_t leadsig_len)
 {
     const size_t skip = RPMLEAD_SIZE + sizeof(rpm_header_magic);
+    uint64_t signature_size;
 
     if (rpmst == NULL || leadsig == NULL || leadsig_len < RPM_LEADSIG_MIN_LEN)
         return DRPM_ERR_PROG;
@@ -559,11 +560,17 @@ int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, si
     if (memcmp(leadsig + RPMLEAD_SIZE, rpm_header_magic, 4) != 0)
         return DRPM_ERR_FORMAT;
 
+    // counts of index entries and data bytes, followed by both
+    signature_size = 8 + (uint64_t)parse_be32(leadsig + skip) * 16 +
+                     parse_be32(leadsig + skip + 4);
+    if (signature_size > leadsig_len - skip)
+        return DRPM_ERR_FORMAT;
+
     memcpy(rpmst->lead, leadsig, RPMLEAD_SIZE);
 
     headerFree(rpmst->signature);
 
-    if ((rpmst->signature = headerImport(leadsig + skip, 0, HEADERIMPORT_COPY)) == NULL)
+    if ((rpmst->signature = headerImport(leadsig + skip, signature_size, HEADERIMPORT_COPY)) == NULL)
         return DRPM_ERR_FORMAT;
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 1adc5253680b8fa61556a1c09ba94e5271d9ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 20/66] fix: initialize file information that is missing from
 the header

---
 src/drpm_rpm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 576ceb0..4ed185c 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -760,6 +760,11 @@ int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
     if (rpmst == NULL || files_ret == NULL || count_ret == NULL)
         return DRPM_ERR_PROG;
 
+    *files_ret = NULL;
+    *count_ret = 0;
+    if (colors_ret != NULL)
+        *colors_ret = false;
+
     filenames = rpmtdNew();
     fileflags = rpmtdNew();
     filemd5s = rpmtdNew();
@@ -777,10 +782,8 @@ int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
         headerGet(rpmst->header, RPMTAG_FILESIZES, filesizes, HEADERGET_MINMEM) != 1 ||
         headerGet(rpmst->header, RPMTAG_FILEMODES, filemodes, HEADERGET_MINMEM) != 1 ||
         headerGet(rpmst->header, RPMTAG_FILEVERIFYFLAGS, fileverify, HEADERGET_MINMEM) != 1 ||
-        headerGet(rpmst->header, RPMTAG_FILELINKTOS, filelinktos, HEADERGET_MINMEM) != 1) {
-        *count_ret = 0;
+        headerGet(rpmst->header, RPMTAG_FILELINKTOS, filelinktos, HEADERGET_MINMEM) != 1)
         goto cleanup;
-    }
 
     colors = (colors_ret == NULL) ? false :
              (headerGet(rpmst->header, RPMTAG_FILECOLORS, filecolors, HEADERGET_MINMEM) == 1);
-- 
2.43.0


From bea969eb99a89dc1063d833da2a1fc5353c18ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 21/66] fix: free tag data fetched for the MD5 signature

---
 src/drpm_rpm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 4ed185c..35c122b 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1004,6 +1004,7 @@ int rpm_signature_get_md5(struct rpm *rpmst, unsigned char md5[MD5_DIGEST_LENGTH
     }
 
 cleanup:
+    rpmtdFreeData(tag_data);
     rpmtdFree(tag_data);
 
     return error;
-- 
2.43.0


From eb6c7d2e6b57ee629eb260ff56ac8c291981797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 22/66] fix: free memory used for reading a header from the RPM
 database

---
 src/drpm_rpm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 35c122b..6366b50 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1028,14 +1028,16 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (rpmst == NULL || nevr == NULL)
         return DRPM_ERR_PROG;
 
-    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL ||
-        (str = malloc(strlen(nevr) + 1)) == NULL) {
+    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL)
+        return DRPM_ERR_MEMORY;
+
+    rpm_init(*rpmst);
+
+    if ((str = malloc(strlen(nevr) + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
 
-    rpm_init(*rpmst);
-
     strcpy(str, nevr);
     release = strrchr(str, '-');
     if (release == NULL || release == str) {
@@ -1077,7 +1079,7 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (arch)
         rpmdbSetIteratorRE(iter, RPMTAG_ARCH, RPMMIRE_STRCMP, arch);
 
-    if (((*rpmst)->header = rpmdbNextIterator(iter)) == NULL) {
+    if (((*rpmst)->header = headerLink(rpmdbNextIterator(iter))) == NULL) {
         error = DRPM_ERR_NOINSTALL;
         goto cleanup_fail;
     }
@@ -1085,6 +1087,8 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if ((error = rpm_export_header(*rpmst, &header, &header_size)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
+    headerFree((*rpmst)->header);
+
     if (((*rpmst)->header = headerImport(header + sizeof(rpm_header_magic), 0, HEADERIMPORT_COPY)) == NULL) {
         error = DRPM_ERR_OTHER;
         goto cleanup_fail;
@@ -1102,6 +1106,7 @@ cleanup_fail:
 cleanup:
     rpmdbFreeIterator(iter);
     rpmtsFree(trans);
+    free(header);
     free(str);
 
     return error;
-- 
2.43.0


From 68cb21ee1a636239c70f5539062055b9ee3f95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 23/66] fix: free the delta info structure when drpm_read()
 fails

---
 src/drpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index 3a06b84..a304bf2 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -79,8 +79,10 @@ int drpm_read(struct drpm **delta_ret, const char *filename)
         goto cleanup;
     }
 
-    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK)
+    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK) {
+        free(*delta_ret);
         goto cleanup;
+    }
 
 cleanup:
     free_deltarpm(&delta);
-- 
2.43.0


From a5de8a713bc52f71de802c19d79dd4161ec57768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 24/66] fix: release RPMs, options and archives when
 drpm_make() fails early

---
 src/drpm.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index a304bf2..1b611f3 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -328,13 +328,13 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
     if (alone)
         solo_rpm_name = (old_rpm_name == NULL) ? new_rpm_name : old_rpm_name;
 
+    if (rpm_only && user_opts->version < 3)
+        return DRPM_ERR_ARGS;
+
     if (user_opts == NULL)
         drpm_make_options_defaults(&opts);
-    else
-        drpm_make_options_copy(&opts, user_opts);
-
-    if (rpm_only && opts.version < 3)
-        return DRPM_ERR_ARGS;
+    else if ((error = drpm_make_options_copy(&opts, user_opts)) != DRPM_ERR_OK)
+        goto cleanup;
 
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
@@ -375,6 +375,9 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             goto cleanup;
     }
 
+    if (!rpm_only)
+        delta.head.tgt_rpm = alone ? solo_rpm : new_rpm;
+
     /* checking if archive is in CPIO format */
     if ((error = rpm_get_payload_format(alone ? solo_rpm : new_rpm, &payload_format)) != DRPM_ERR_OK)
         goto cleanup;
@@ -393,9 +396,6 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
         delta.comp_level = delta.tgt_comp_level;
     }
 
-    if (!rpm_only)
-        delta.head.tgt_rpm = alone ? solo_rpm : new_rpm;
-
     /* reading source and target NEVRs */
     if ((error = rpm_get_nevr(alone ? solo_rpm : old_rpm, &delta.src_nevr)) != DRPM_ERR_OK ||
         (rpm_only && (error = rpm_get_nevr(new_rpm, &delta.head.tgt_nevr)) != DRPM_ERR_OK))
@@ -419,12 +419,15 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             (error = rpm_fetch_archive(new_rpm, &new_cpio, &new_cpio_len)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL ||
-            (new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
         old_cpio = old_cpio_tmp;
+        if ((new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         new_cpio = new_cpio_tmp;
 
         memmove(old_cpio + old_header_len, old_cpio, old_cpio_len);
-- 
2.43.0


From 528e2f252ba863a94fe0c1889a7218ca70d99a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 25/66] fix: do not dereference a null pointer when destroying
 make options

---
 src/drpm_options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index e10ac8f..aca0144 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -44,7 +44,7 @@ int drpm_make_options_init(struct drpm_make_options **opts)
 
 int drpm_make_options_destroy(struct drpm_make_options **opts)
 {
-    if (opts == NULL)
+    if (opts == NULL || *opts == NULL)
         return DRPM_ERR_ARGS;
 
     free((*opts)->seqfile);
-- 
2.43.0


From fc78ba7136b17578411b0c4f914e8494d137baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 26/66] fix: release the delta and output file when it cannot
 be applied to the filesystem

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 1b611f3..818ba7f 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -575,11 +575,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         }
     } else {
         // rpm-only deltarpms do not work from filesystem
-        if (rpm_only)
-            return DRPM_ERR_ARGS;
+        if (rpm_only) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm))
-            return DRPM_ERR_ARGS;
+        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 260e27fdbaf6a325e5bdbe219ffe8df709a15883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 27/66] fix: open the right file when reading installed files

---
 src/drpm_block.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index c5607da..00f7b68 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -976,15 +976,15 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     strncpy((char *)buf_ptr, blks->linkto + file_off, read_len);
             } else if (file_off < blks->files[cpio->index].size) {
                 read_len = MIN(len, blks->files[cpio->index].size - file_off);
-                file = get_open_file(blks, cpio->index);
+                file = get_open_file(blks, blks->cpio_files_index);
                 if (file == NULL) {
-                    if ((error = open_new_file(blks, &prelinked, cpio->index)) != DRPM_ERR_OK)
+                    if ((error = open_new_file(blks, &prelinked, blks->cpio_files_index)) != DRPM_ERR_OK)
                         break;
                     if (prelinked) {
                         blks->cpio_files_index = -1;
                         return fillblock_prelink(blks, blk, id, copy_cnt, cpio);
                     }
-                    file = get_open_file(blks, cpio->index);
+                    file = get_open_file(blks, blks->cpio_files_index);
                 }
                 if (file->offset != (off_t)file_off && lseek(file->filedesc, file_off, SEEK_SET) != (off_t)file_off) {
                     error = DRPM_ERR_IO;
-- 
2.43.0


From 27161f73beab4900def08bba28e1e8be35d791f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 28/66] fix: forget installed files that are closed when too
 many are open

---
 src/drpm_block.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 00f7b68..dda2c5a 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -53,6 +53,7 @@ struct open_file {
     int filedesc;
     const char *name;
     off_t offset;
+    size_t index;
 };
 
 /* a block */
@@ -611,11 +612,13 @@ int open_new_file(struct blocks *blks, bool *prelinked, size_t index)
         else
             files_head->prev = NULL;
         close(new->filedesc);
+        blks->rpm_files.from_filesytem.open_files[new->index] = NULL;
     }
 
     new->filedesc = filedesc;
     new->name = file.name;
     new->offset = 0;
+    new->index = index;
     new->prev = NULL;
     new->next = NULL;
 
-- 
2.43.0


From b3e2224e38265605d8fc78d760198e77569a3482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 29/66] fix: do not free page blocks that are still listed when
 paging fails

---
 src/drpm_block.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index dda2c5a..6f595f7 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -480,20 +480,16 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
         blks->page_blocks = new;
         blks->page_blocks_count++;
         if (blks->page_filedesc < 0) {
-            if ((blks->page_filedesc = mkstemp(template)) < 0) {
-                free(new);
+            if ((blks->page_filedesc = mkstemp(template)) < 0)
                 return DRPM_ERR_IO;
-            }
             unlink(template);
         }
     }
 
     new->id = blk->id;
 
-    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE) {
-        free(new);
+    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE)
         return DRPM_ERR_IO;
-    }
 
     blks->blocks_table[new->id] = new;
 
-- 
2.43.0


From 57d84b96d7488c0adf276a0e8a4e2a716fc06079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 30/66] fix: do not leave a dangling pointer when creating
 blocks fails

---
 src/drpm_block.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 6f595f7..631e70e 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -224,6 +224,11 @@ int blocks_create(struct blocks **blks_ret,
 
 cleanup:
     free(*blks_ret);
+    *blks_ret = NULL;
+    if (blks.from_rpm)
+        free(blks.rpm_files.from_rpm.old_header);
+    else
+        free(blks.rpm_files.from_filesytem.open_files);
     free(blks.blocks_table);
     free(blks.blocks_max);
     free(blks.cpio_buffer);
-- 
2.43.0


From f6437c88ffbf3e4ed809fed1ffcd9a8379c8a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 31/66] fix: do not share the block cleanup counter between
 concurrent calls

---
 src/drpm_block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 631e70e..27ce077 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -74,6 +74,7 @@ struct blocks {
     struct block *free_core_blocks;
     struct block *core_blocks;
     size_t core_blocks_count;
+    size_t cleanup_count;
 
     struct block *page_blocks;
     size_t page_blocks_count;
@@ -315,7 +316,6 @@ int blocks_next(struct blocks *blks, unsigned char buffer[BLOCK_SIZE], size_t *b
 /* gets new block and fills it */
 int get_block(struct blocks *blks, struct block **blk_ret, size_t id, size_t copy_cnt)
 {
-    static size_t cleanup_count = 0;
     int error;
     struct block *blk;
     struct block *page_blk;
@@ -332,7 +332,7 @@ int get_block(struct blocks *blks, struct block **blk_ret, size_t id, size_t cop
     }
 
     if ((blk = get_free_core_block(blks)) == NULL) {
-        if (blks->core_blocks_count < MAX_CORE_BLOCKS && (++cleanup_count % 8) != 0) {
+        if (blks->core_blocks_count < MAX_CORE_BLOCKS && (++blks->cleanup_count % 8) != 0) {
             if ((error = new_core_block(blks, &blk)) != DRPM_ERR_OK)
                 return error;
         } else {
-- 
2.43.0


From 6ce2ab989e7701769cf0cb6fa7bdf2ad1a0d638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 32/66] fix: reject CPIO entries with an empty name

---
 src/drpm_block.c | 5 +++++
 src/drpm_make.c  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 27ce077..1cbafa0 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -777,6 +777,11 @@ int fillblock_rpm_standard(struct blocks *blks, struct block *blk, size_t id, si
                 (error = cpio_header_read(&cpio_hdr, cpio_buf)) != DRPM_ERR_OK)
                 break;
 
+            if (cpio_hdr.namesize == 0) {
+                error = DRPM_ERR_FORMAT;
+                break;
+            }
+
             c_namesize = cpio_hdr.namesize;
             c_filesize = cpio_hdr.filesize;
             c_filesize += CPIO_PADDING(c_filesize);
diff --git a/src/drpm_make.c b/src/drpm_make.c
index 00d2f10..37940e7 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -353,6 +353,11 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
         c_filesize = cpio_hdr.filesize;
         c_namesize = cpio_hdr.namesize;
 
+        if (c_namesize == 0) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
+
         if (c_namesize > name_buffer_len) {
             if ((name_buffer_tmp = realloc(name_buffer, c_namesize)) == NULL) {
                 error = DRPM_ERR_MEMORY;
-- 
2.43.0


From d70565b268aa73723fdb8d2382780bd68fc1412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 33/66] fix: initialize the RPM read for rpm-only identity
 deltas

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 37940e7..1839e15 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -1025,7 +1025,7 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
 int fill_nodiff_deltarpm(struct deltarpm *delta, const char *rpm_filename,
                          bool comp_not_set)
 {
-    struct rpm *solo_rpm;
+    struct rpm *solo_rpm = NULL;
     char *nevr = NULL;
     int error = DRPM_ERR_OK;
 
-- 
2.43.0


From f5710ff3ebfa2f9dd31f3ff7d62368f94e2748fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 34/66] fix: free the file order sequence when parsing the
 archive fails

---
 src/drpm_make.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 1839e15..944ef8b 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -101,6 +101,7 @@ bool seq_append(struct files_seq *seq, unsigned val)
 {
     size_t len = 1;
     unsigned tmp = val;
+    unsigned char *data_tmp;
 
     while (tmp >= (1<<3)) {
         tmp >>= 3;
@@ -108,8 +109,9 @@ bool seq_append(struct files_seq *seq, unsigned val)
     }
 
     if (SEQ_BYTE_LEN(seq->index + len) > seq->alloc_len) {
-        if ((seq->data = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
+        if ((data_tmp = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
             return false;
+        seq->data = data_tmp;
         seq->alloc_len += SEQ_ALLOC_SIZE;
     }
 
@@ -609,6 +611,7 @@ cleanup_fail:
     free(sequence);
     if (offadj)
         free(offadjs);
+    seq_files = seq.data;
 
 cleanup:
     for (size_t i = 0; i < file_count; i++) {
-- 
2.43.0


From 4994d8b01a72c329c22ebbd7961e7e911139a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 35/66] fix: allocate, initialize and free patch information
 properly

---
 src/drpm_make.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 944ef8b..ae3bb89 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -784,6 +784,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                 goto cleanup;
             if ((patch->files[patch->file_count].name = malloc(strlen(filename) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
+                goto cleanup;
             }
             strcpy(patch->files[patch->file_count].name, filename);
             patch->files[patch->file_count].mode = S_IFREG;
@@ -875,8 +876,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     struct patch_info *patchrpm;
     uint32_t magic;
     struct rpm *rpmst = NULL;
-    struct file_info *files;
-    size_t file_count;
+    struct file_info *files = NULL;
+    size_t file_count = 0;
     char *fname;
 
     if (patches == NULL)
@@ -888,7 +889,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
         return DRPM_ERR_OK;
     }
 
-    if ((*patches = malloc(sizeof(struct rpm_patches))) == NULL)
+    if ((*patches = calloc(1, sizeof(struct rpm_patches))) == NULL)
         return DRPM_ERR_MEMORY;
 
     rpmprint = &(*patches)->rpmprint;
@@ -918,7 +919,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
-        if ((rpmprint->files = malloc(file_count)) == NULL) {
+        if ((rpmprint->files = calloc(file_count + 1, sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
@@ -955,6 +956,13 @@ cleanup_fail:
     patches_destroy(patches);
 
 cleanup:
+    for (size_t i = 0; i < file_count; i++) {
+        free(files[i].name);
+        free(files[i].md5);
+        free(files[i].linkto);
+    }
+    free(files);
+    rpm_destroy(&rpmst);
     close(filedesc);
 
     return error;
-- 
2.43.0


From 264e574beb1be528b0fc3d8e18a56597a7f62a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 36/66] fix: parse file lists of patches correctly

---
 src/drpm_make.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index ae3bb89..194bab6 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -666,9 +666,12 @@ int rpml_get_string(int filedesc, char **ret)
             return DRPM_ERR_MEMORY;
         if (read(filedesc, *ret, len) != len) {
             free(*ret);
+            *ret = NULL;
             return DRPM_ERR_FORMAT;
         }
         (*ret)[len] = '\0';
+    } else {
+        return rpml_skip(filedesc, len);
     }
 
     return DRPM_ERR_OK;
@@ -695,6 +698,10 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     off = buf[0];
 
+    // first <off> bytes are shared with the previous file name
+    if (off > ((filename != NULL) ? strlen(filename) : 0))
+        return DRPM_ERR_FORMAT;
+
     if (buf[1] == 0xFF) {
         if ((error = rpml_get_uint16(filedesc, &len)) != DRPM_ERR_OK)
             return error;
@@ -708,6 +715,8 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
         if ((filename = realloc(filename, new_filename_len)) == NULL)
             return DRPM_ERR_MEMORY;
         filename_len = new_filename_len;
+        *filename_ret = filename;
+        *filename_len_ret = filename_len;
     }
 
     if (read(filedesc, filename + off, len) != len)
@@ -715,9 +724,6 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     filename[off + len] = '\0';
 
-    *filename_ret = filename;
-    *filename_len_ret = filename_len;
-
     return DRPM_ERR_OK;
 }
 
@@ -732,7 +738,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 {
     int error = DRPM_ERR_OK;
     char *filename = NULL;
-    uint32_t filename_len;
+    uint32_t filename_len = 0;
     const char *fname;
     uint32_t magic;
     char *name = NULL;
@@ -847,9 +853,9 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
-                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes &&
-                    parse_be32(buf) > 0 &&
-                    read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH) {
+                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
+                    (parse_be32(buf) > 0 &&
+                     read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
-- 
2.43.0


From 157b65f15cc0dfcf6a9c8ef9055b44932fb8da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 37/66] fix: accept RPMs with directories or symlinks when
 reading patches

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 194bab6..a11ecda 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -941,7 +941,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             strcpy(rpmprint->files[i].name, fname);
             rpmprint->files[i].mode = files[i].mode;
             rpmprint->files[i].flags = files[i].flags;
-            if (!parse_md5(rpmprint->files[i].md5, files[i].md5)) {
+            if (files[i].md5[0] != '\0' && !parse_md5(rpmprint->files[i].md5, files[i].md5)) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From 3e392ebf40e4c0e4b7e0fb0164048403ab4bddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 38/66] fix: release resources when writing a delta fails

---
 src/drpm_write.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 87da972..afaf7d8 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -209,28 +209,34 @@ int write_deltarpm(struct deltarpm *delta)
     switch (delta->type) {
     case DRPM_TYPE_STANDARD:
         if ((error = rpm_fetch_header(delta->head.tgt_rpm, &header, &header_size)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
         if (MD5_Init(&md5) != 1 ||
             MD5_Update(&md5, header, header_size) != 1 ||
             MD5_Update(&md5, strm_data, strm_data_len) != 1 ||
-            MD5_Final(md5_digest, &md5) != 1)
-            return DRPM_ERR_OTHER;
+            MD5_Final(md5_digest, &md5) != 1) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if ((error = rpm_signature_empty(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_size(delta->head.tgt_rpm, header_size + strm_data_len)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_md5(delta->head.tgt_rpm, md5_digest)) != DRPM_ERR_OK ||
             (error = rpm_signature_reload(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_write(delta->head.tgt_rpm, delta->filename, false, NULL, false)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
-        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
         break;
 
     case DRPM_TYPE_RPMONLY:
-        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
 
         if (write(filedesc, "drpm", 4) != 4 ||
             write(filedesc, version, 4) != 4) {
@@ -266,7 +272,9 @@ cleanup:
 
     free(header);
     free(strm_data);
-    close(filedesc);
+
+    if (filedesc >= 0 && close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From ba7b1c0a313dc44dd6efc2d0a788526c376f5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 39/66] fix: report errors when writing the sequence file

---
 src/drpm_write.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index afaf7d8..4adf4a5 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -288,18 +288,21 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
     if ((file = fopen(filename, "w")) == NULL)
         return DRPM_ERR_IO;
 
-    if ((sequence = malloc(delta->sequence_len * 2 + 1)) == NULL) {
+    if ((sequence = malloc((size_t)delta->sequence_len * 2 + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
 
     dump_hex(sequence, delta->sequence, delta->sequence_len);
 
-    fprintf(file, "%s-%s\n", delta->src_nevr, sequence);
+    if (fprintf(file, "%s-%s\n", delta->src_nevr, sequence) < 0)
+        error = DRPM_ERR_IO;
 
 cleanup:
     free(sequence);
-    fclose(file);
+
+    if (fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From 8ea3716c66834d552500a7255211b6e9ab8de8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 40/66] fix: reject deltas whose target header is longer than
 the data

---
 src/drpm_write.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 4adf4a5..f9bdcd8 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -384,11 +384,15 @@ int compstrm_wrapper_finish(struct compstrm_wrapper *csw, unsigned char **data,
     if (csw == NULL)
         return DRPM_ERR_PROG;
 
+    if (csw->uncomp_left > 0)
+        return DRPM_ERR_FORMAT;
+
     if ((error = compstrm_finish(csw->strm, data, data_len)) != DRPM_ERR_OK)
         return error;
 
     if ((data_tmp = realloc(*data, csw->uncomp_len + *data_len)) == NULL) {
         free(*data);
+        *data = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From 6bc7070e98cdaf978b7a879e87e171e162bc9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 41/66] fix: do not free uninitialized or freed data when
 diffing fails

---
 src/drpm_diff.c   | 10 ++++++----
 src/drpm_search.c |  5 +++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 8de8bf8..2be8dc6 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -86,13 +86,13 @@ int make_diff(const unsigned char *old, size_t old_len,
 
     const bool addblk = (add_block_ret != NULL && add_block_len_ret != NULL);
     size_t add_block_len;
-    struct compstrm *stream;
+    struct compstrm *stream = NULL;
 
     struct diff_copy *diff_copies = NULL;
     size_t diff_copies_len = 0;
 
     //struct sfxsrt *suffix;
-    struct hash *hashtab;
+    struct hash *hashtab = NULL;
 
     size_t old_pos = 0;
     size_t new_pos = 0;
@@ -221,7 +221,7 @@ int make_diff(const unsigned char *old, size_t old_len,
 
         if (!resize32((void **)&diff_copies, diff_copies_len, sizeof(struct diff_copy))) {
             error = DRPM_ERR_MEMORY;
-            goto cleanup;
+            goto cleanup_fail;
         }
 
         diff_copies[diff_copies_len].new_off = new_pos_prev + len_forward;
@@ -261,8 +261,10 @@ int make_diff(const unsigned char *old, size_t old_len,
     goto cleanup;
 
 cleanup_fail:
-    if (addblk)
+    if (addblk) {
         free(*add_block_ret);
+        *add_block_ret = NULL;
+    }
 
 cleanup:
     free(diff_copies);
diff --git a/src/drpm_search.c b/src/drpm_search.c
index 008b7f8..d6fdc97 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -178,6 +178,7 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
     if ((hash_table = calloc(ht_len, sizeof(size_t))) == NULL) {
         free(*hsh);
+        *hsh = NULL;
         return DRPM_ERR_MEMORY;
     }
 
@@ -201,8 +202,12 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
 void hash_free(struct hash **hsh)
 {
+    if (*hsh == NULL)
+        return;
+
     free((*hsh)->hash_table);
     free(*hsh);
+    *hsh = NULL;
 }
 
 size_t hash_search(struct hash *hsh,
-- 
2.43.0


From 1e9a7019f795b040e33600777d2a5004c64e87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 42/66] fix: apply rpm-only identity deltas of compressed RPMs

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 818ba7f..f0f378a 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -506,6 +506,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     struct deltarpm delta = {0};
     const bool from_rpm = (old_rpm_name != NULL);
     bool rpm_only;
+    bool no_diff;
     struct rpm *old_rpm = NULL;
     struct rpm *patched_rpm = NULL;
     unsigned char oldsig_md5[MD5_DIGEST_LENGTH];
@@ -554,11 +555,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = read_deltarpm(&delta, deltarpm_name)) != DRPM_ERR_OK)
         goto cleanup;
     rpm_only = (delta.type == DRPM_TYPE_RPMONLY);
+    no_diff = (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
+               delta.int_copies_count == 0 && delta.ext_copies_count == 0);
     no_full_md5 = (memcmp(empty_md5, delta.tgt_md5, MD5_DIGEST_LENGTH) == 0);
 
     if (from_rpm) {
-        /* reading old RPM */
-        if ((error = rpm_read(&old_rpm, old_rpm_name, RPM_ARCHIVE_READ_DECOMP, NULL, NULL, NULL)) != DRPM_ERR_OK)
+        /* reading old RPM (for no-diff DeltaRPMs the archive is written out as it is) */
+        if ((error = rpm_read(&old_rpm, old_rpm_name,
+                              no_diff ? RPM_ARCHIVE_READ_UNCOMP : RPM_ARCHIVE_READ_DECOMP,
+                              NULL, NULL, NULL)) != DRPM_ERR_OK)
             goto cleanup;
         if (rpm_only) {
             /* comparing signature MD5 with DeltaRPM sequence */
@@ -613,8 +618,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = rpm_replace_lead_and_signature(patched_rpm, delta.tgt_leadsig, delta.tgt_leadsig_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
-        delta.int_copies_count == 0 && delta.ext_copies_count == 0) {
+    if (no_diff) {
     /* no-diff DeltaRPM, no need for reconstruction */
         if ((error = rpm_write(patched_rpm, new_rpm_name, true, md5_digest, !no_full_md5)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From e76edadc0d4a462cecd301aac87bce321e45a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 43/66] fix: keep file names when options are copied onto
 themselves

---
 src/drpm_options.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index aca0144..18bbf09 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -86,6 +86,9 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
     if (opts_dst == NULL || opts_src == NULL)
         return DRPM_ERR_ARGS;
 
+    if (opts_dst == opts_src)
+        return DRPM_ERR_OK;
+
     opts_dst->rpm_only = opts_src->rpm_only;
     opts_dst->version = opts_src->version;
     opts_dst->comp_from_rpm = opts_src->comp_from_rpm;
-- 
2.43.0


From 5f5ada457aed595120113cf7e55a2c94cc5c11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 44/66] fix: leave options unchanged when adding patches runs
 out of memory

---
 src/drpm_options.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 18bbf09..1e531de 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -258,24 +258,26 @@ int drpm_make_options_set_seqfile(struct drpm_make_options *opts, const char *se
 
 int drpm_make_options_add_patches(struct drpm_make_options *opts, const char *oldrpmprint, const char *oldpatchrpm)
 {
-    char *tmp;
+    char *print;
+    char *patch;
 
     if (opts == NULL || oldrpmprint == NULL || oldpatchrpm == NULL)
         return DRPM_ERR_ARGS;
 
-    if (opts->oldrpmprint == NULL || strlen(opts->oldrpmprint) < strlen(oldrpmprint)) {
-        if ((tmp = realloc(opts->oldrpmprint, strlen(oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldrpmprint = tmp;
-    }
-    if (opts->oldpatchrpm == NULL || strlen(opts->oldpatchrpm) < strlen(oldpatchrpm)) {
-        if ((tmp = realloc(opts->oldpatchrpm, strlen(oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldpatchrpm = tmp;
+    if ((print = malloc(strlen(oldrpmprint) + 1)) == NULL)
+        return DRPM_ERR_MEMORY;
+    if ((patch = malloc(strlen(oldpatchrpm) + 1)) == NULL) {
+        free(print);
+        return DRPM_ERR_MEMORY;
     }
 
-    strcpy(opts->oldrpmprint, oldrpmprint);
-    strcpy(opts->oldpatchrpm, oldpatchrpm);
+    strcpy(print, oldrpmprint);
+    strcpy(patch, oldpatchrpm);
+
+    free(opts->oldrpmprint);
+    free(opts->oldpatchrpm);
+    opts->oldrpmprint = print;
+    opts->oldpatchrpm = patch;
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From 5d53ac43b5048999444d1db53b364f58ca1b6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 45/66] fix: read deltas of packages with an uncompressed
 payload

rpmbuild writes no PAYLOADCOMPRESSOR tag for them, so the standard deltas
drpm_make() produced could be neither read nor applied.
---
 src/drpm_rpm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 6366b50..7b77c78 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -602,8 +602,11 @@ int rpm_get_comp(struct rpm *rpmst, unsigned short *comp)
     if (rpmst == NULL || comp == NULL)
         return DRPM_ERR_PROG;
 
-    if ((payload_comp = headerGetString(rpmst->header, RPMTAG_PAYLOADCOMPRESSOR)) == NULL)
-        return DRPM_ERR_FORMAT;
+    /* the tag is absent if the payload is not compressed */
+    if ((payload_comp = headerGetString(rpmst->header, RPMTAG_PAYLOADCOMPRESSOR)) == NULL) {
+        *comp = DRPM_COMP_NONE;
+        return DRPM_ERR_OK;
+    }
 
     if (strcmp(payload_comp, "gzip") == 0) {
         *comp = DRPM_COMP_GZIP;
-- 
2.43.0


From 247a9ee2dff9bd8fd9ce346bcae065b66d19965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 46/66] verif hook: configurable block and file cache sizes
 under DRPM_VERIF

---
 src/drpm_block.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 1cbafa0..52bc1bd 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -34,8 +34,20 @@
 #include <sys/wait.h>
 #include <fcntl.h>
 
+#ifdef DRPM_VERIF
+/* small caches, so that small inputs already evict blocks, page them out and reopen files */
+#ifndef DRPM_VERIF_MAX_OPEN_FILES
+#define DRPM_VERIF_MAX_OPEN_FILES 2
+#endif
+#ifndef DRPM_VERIF_MAX_CORE_BLOCKS
+#define DRPM_VERIF_MAX_CORE_BLOCKS 3
+#endif
+#define MAX_OPEN_FILES DRPM_VERIF_MAX_OPEN_FILES
+#define MAX_CORE_BLOCKS DRPM_VERIF_MAX_CORE_BLOCKS
+#else
 #define MAX_OPEN_FILES 50
 #define MAX_CORE_BLOCKS 5000
+#endif
 
 #define BLOCK_SIZE (1 << 13)
 
-- 
2.43.0


From 393081e38bef1f09e7095ae10adbd8af85284d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 47/66] fix: find the installed package of exactly the given
 epoch among several versions

---
 src/drpm_rpm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 7b77c78..edc8a3c 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1020,6 +1020,7 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     int error = DRPM_ERR_OK;
     rpmts trans = NULL;
     rpmdbMatchIterator iter = NULL;
+    Header installed;
     char *name;
     char *epoch = NULL;
     char *version;
@@ -1082,7 +1083,11 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (arch)
         rpmdbSetIteratorRE(iter, RPMTAG_ARCH, RPMMIRE_STRCMP, arch);
 
-    if (((*rpmst)->header = headerLink(rpmdbNextIterator(iter))) == NULL) {
+    do {
+        installed = rpmdbNextIterator(iter);
+    } while (installed != NULL && (epoch != NULL) != (headerIsEntry(installed, RPMTAG_EPOCH) != 0));
+
+    if (((*rpmst)->header = headerLink(installed)) == NULL) {
         error = DRPM_ERR_NOINSTALL;
         goto cleanup_fail;
     }
-- 
2.43.0


From b92dc4128f6ad388d55795bdf1ed4a04b0d13c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 48/66] fix: report truncated compressed payloads instead of
 taking them as complete

---
 src/drpm_decompstrm.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 1941c5d..07f5056 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -64,6 +64,7 @@ struct decompstrm {
 #endif
     } stream;
     bool eof;
+    bool complete; // end of compressed stream reached
     bool lzip_eof;
     int (*read_chunk)(struct decompstrm *);
     void (*finish)(struct decompstrm *);
@@ -288,6 +289,7 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     (*strm)->data_pos = 0;
     (*strm)->filedesc = filedesc;
     (*strm)->eof = false;
+    (*strm)->complete = false;
     (*strm)->comp_size = 0;
     (*strm)->md5 = md5;
     (*strm)->buffer = buffer;
@@ -509,7 +511,7 @@ int readchunk_bzip2(struct decompstrm *strm)
     }
 
     if (in_len == 0) {
-        strm->eof = true;
+        strm->eof = strm->complete;
         return DRPM_ERR_FORMAT;
     }
 
@@ -520,6 +522,9 @@ int readchunk_bzip2(struct decompstrm *strm)
         strm->stream.bzip2.next_out = out_buffer;
         strm->stream.bzip2.avail_out = CHUNK_SIZE;
         switch (BZ2_bzDecompress(&strm->stream.bzip2)) {
+        case BZ_STREAM_END:
+            strm->complete = true;
+            break;
         case BZ_DATA_ERROR:
         case BZ_DATA_ERROR_MAGIC:
             return DRPM_ERR_FORMAT;
@@ -564,7 +569,7 @@ int readchunk_gzip(struct decompstrm *strm)
     }
 
     if (in_len == 0) {
-        strm->eof = true;
+        strm->eof = strm->complete;
         return DRPM_ERR_FORMAT;
     }
 
@@ -575,6 +580,9 @@ int readchunk_gzip(struct decompstrm *strm)
         strm->stream.gzip.next_out = out_buffer;
         strm->stream.gzip.avail_out = CHUNK_SIZE;
         switch (inflate(&strm->stream.gzip, Z_SYNC_FLUSH)) {
+        case Z_STREAM_END:
+            strm->complete = true;
+            break;
         case Z_DATA_ERROR:
         case Z_NEED_DICT:
         case Z_STREAM_ERROR:
@@ -620,7 +628,7 @@ int readchunk_lzma(struct decompstrm *strm)
     }
 
     if (in_len == 0) {
-        strm->eof = true;
+        strm->eof = strm->complete;
         return DRPM_ERR_FORMAT;
     }
 
@@ -632,7 +640,9 @@ int readchunk_lzma(struct decompstrm *strm)
         strm->stream.lzma.avail_out = CHUNK_SIZE;
         switch (lzma_code(&strm->stream.lzma, LZMA_RUN)) {
         case LZMA_OK:
+            break;
         case LZMA_STREAM_END:
+            strm->complete = true;
             break;
         case LZMA_FORMAT_ERROR:
         case LZMA_OPTIONS_ERROR:
@@ -761,7 +771,7 @@ int readchunk_zstd(struct decompstrm *strm)
     }
 
     if (in_len == 0) {
-        strm->eof = true;
+        strm->eof = strm->complete;
         return DRPM_ERR_FORMAT;
     }
 
-- 
2.43.0


From bbc94ee0cba2dc4902888c1206364e6fec8bb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 49/66] fix: zstd payloads: report truncated streams, fetch all
 pending output

---
 src/drpm_decompstrm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 07f5056..e09bdba 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -782,13 +782,17 @@ int readchunk_zstd(struct decompstrm *strm)
 
     ZSTD_inBuffer input = { in_buffer, in_len, 0 };
 
-    while (input.pos < input.size) {
+    bool pending = false; // more output for the input already consumed
+
+    while (input.pos < input.size || pending) {
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
         if (ZSTD_isError(ret)) {
             free(buffOut);
             return DRPM_ERR_OTHER;
         }
+        strm->complete = (ret == 0);
+        pending = (ret != 0 && output.pos == output.size);
         if (output.pos == 0)
             continue;
         if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
-- 
2.43.0


From 52224ec6b6c1ead58057e3c4a8f4bb046e23303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 50/66] fix: reject deltas whose compressed data is cut short
 or corrupt behind the last field

---
 src/drpm_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index c3b8490..99d0a1a 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -345,6 +345,10 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
 
     delta->int_data_as_ptrs = false;
 
+    /* checking that compressed data is complete and intact up to its end */
+    if ((error = decompstrm_read_until_eof(stream, NULL, NULL)) != DRPM_ERR_OK)
+        goto cleanup;
+
     /* checking internal copies against internal data length */
     off = 0;
     for (uint32_t i = 1; i < int_copies_size; i += 2) {
-- 
2.43.0


From e7a00687097cb3dfefccee247647f4c81aea6ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 51/66] fix: no out of bounds read when searching a new archive
 shorter than one hash window

---
 src/drpm_search.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/drpm_search.c b/src/drpm_search.c
index d6fdc97..1944f9c 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -236,20 +236,20 @@ size_t hash_search(struct hash *hsh,
 
     uint32_t key;
     uint32_t key2;
-    uint32_t prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    uint32_t prekey = (scan + HSIZE <= new_len) ? buzhash(new + scan) : 0;
     uint32_t xprekey;
 
     hash_table = hsh->hash_table;
     ht_len = hsh->ht_len;
     scan_start = scan;
     old_score = old_score_num = old_score_start = 0;
-    prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    prekey = (scan + HSIZE <= new_len) ? buzhash(new + scan) : 0;
     pos = 0;
     len = 0;
     last_pos = last_scan = last_len = 0;
 
     while (true) {
-        if (scan >= new_len - HSIZE) {
+        if (scan + HSIZE >= new_len) {
             if (last_len >= 32)
                 goto gotit;
             break;
@@ -358,7 +358,7 @@ gotit:
         last_len = 0;
     }
 
-    if (scan >= new_len - HSIZE) {
+    if (scan + HSIZE >= new_len) {
       scan = new_len;
       pos = 0;
       len = 0;
-- 
2.43.0


From 172636b47e78376880656ab8d1d7b5333a0f822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 52/66] fix: report failures to close output files

---
 src/drpm.c     | 3 ++-
 src/drpm_rpm.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index f0f378a..08aa99f 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -771,7 +771,8 @@ final_check:
 
 cleanup:
 
-    close(filedesc);
+    if (close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     for (size_t i = 0; i < file_count; i++) {
         free(files[i].name);
diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index edc8a3c..02936d4 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -541,7 +541,8 @@ int rpm_write(struct rpm *rpmst, const char *filename, bool include_archive, uns
     }
 
 cleanup:
-    Fclose(file);
+    if (Fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
     free(signature);
     free(header);
 
-- 
2.43.0


From 9aac22b297f3f5ca8bd944f3b70ac1858ed9b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 53/66] fix: truncated lzip stream was accepted

LZ_decompress_finished() returns -1 once decoding has failed, which ended
the loop before the error was seen.
---
 src/drpm_decompstrm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index e09bdba..023e436 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -717,7 +717,7 @@ int readchunk_lzip(struct decompstrm *strm)
             strm->data = data_tmp;
             memcpy(strm->data + strm->data_len, out_buffer, out_len);
             strm->data_len += out_len;
-        } while (!LZ_decompress_finished(strm->stream.lzip));
+        } while (LZ_decompress_finished(strm->stream.lzip) != 1);
     } else {
         while (written < in_len) {
             if (LZ_decompress_write_size(strm->stream.lzip) > 0) {
-- 
2.43.0


From 169bea11d00fd017f379b1cc3338eba8bbf876ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 54/66] fix: no pointer arithmetic on NULL for an empty
 decompressed stream

---
 src/drpm_decompstrm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 023e436..f90ca24 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -445,7 +445,8 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         if (buffer_ret != NULL) {
             if ((*buffer_ret = malloc(*len_ret)) == NULL)
                 return DRPM_ERR_MEMORY;
-            memcpy(*buffer_ret, strm->data + strm->data_pos, *len_ret);
+            if (*len_ret > 0)
+                memcpy(*buffer_ret, strm->data + strm->data_pos, *len_ret);
             strm->data_pos = strm->data_len;
         }
     }
-- 
2.43.0


From c5182b1b34ae5653285bfdf51fdf0cd6ffb45560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 55/66] fix: check the types of the file name tags before
 librpm composes file names

---
 src/drpm_rpm.c | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 02936d4..82cc256 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -52,6 +52,7 @@ struct rpm {
 
 static void rpm_init(struct rpm *);
 static void rpm_free(struct rpm *);
+static bool rpm_file_names_sane(struct rpm *);
 static int rpm_export_header(struct rpm *, unsigned char **, size_t *);
 static int rpm_export_signature(struct rpm *, unsigned char **, size_t *);
 static void rpm_header_unload_region(struct rpm *, rpmTagVal);
@@ -733,6 +734,50 @@ int rpm_patch_payload_format(struct rpm *rpmst, const char *new_payfmt)
     return DRPM_ERR_OK;
 }
 
+/* Tells whether the file name tags of the header are of the types and sizes
+ * that librpm takes for granted when it composes full file names. */
+static bool rpm_file_names_sane(struct rpm *rpmst)
+{
+    bool sane = false;
+    rpmtd basenames = rpmtdNew();
+    rpmtd dirnames = rpmtdNew();
+    rpmtd dirindexes = rpmtdNew();
+    uint32_t *dirindex;
+    size_t count = 0;
+
+    if (headerGet(rpmst->header, RPMTAG_BASENAMES, basenames, HEADERGET_MINMEM) != 1) {
+        sane = true;
+        goto cleanup;
+    }
+
+    if (headerGet(rpmst->header, RPMTAG_DIRNAMES, dirnames, HEADERGET_MINMEM) != 1 ||
+        headerGet(rpmst->header, RPMTAG_DIRINDEXES, dirindexes, HEADERGET_MINMEM) != 1 ||
+        rpmtdType(basenames) != RPM_STRING_ARRAY_TYPE ||
+        rpmtdType(dirnames) != RPM_STRING_ARRAY_TYPE ||
+        rpmtdType(dirindexes) != RPM_INT32_TYPE ||
+        rpmtdCount(basenames) != rpmtdCount(dirindexes))
+        goto cleanup;
+
+    while ((dirindex = rpmtdNextUint32(dirindexes)) != NULL) {
+        if (*dirindex >= rpmtdCount(dirnames))
+            goto cleanup;
+        count++;
+    }
+
+    sane = (count == rpmtdCount(basenames));
+
+cleanup:
+    rpmtdFreeData(basenames);
+    rpmtdFreeData(dirnames);
+    rpmtdFreeData(dirindexes);
+
+    rpmtdFree(basenames);
+    rpmtdFree(dirnames);
+    rpmtdFree(dirindexes);
+
+    return sane;
+}
+
 /* Fetches a list of file information from the header. */
 int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
                       size_t *count_ret, bool *colors_ret)
@@ -769,6 +814,9 @@ int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
     if (colors_ret != NULL)
         *colors_ret = false;
 
+    if (!rpm_file_names_sane(rpmst))
+        return DRPM_ERR_FORMAT;
+
     filenames = rpmtdNew();
     fileflags = rpmtdNew();
     filemd5s = rpmtdNew();
-- 
2.43.0


From fc0b138d89de70ddd96c21852c616224ee6b29c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 56/66] fix: store the file names of patch lists

---
 src/drpm_make.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index a11ecda..142bc2b 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -819,6 +819,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             goto cleanup;
         }
 
+        strcpy(patch->files[patch->file_count].name, fname);
         patch->files[patch->file_count].flags = RPMFILE_NONE;
         memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
 
-- 
2.43.0


From c655c0212071dcc76319ef7ed2ff0da21769f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 57/66] fix: free the file name of a patch list entry that
 cannot be read

---
 src/drpm_make.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 142bc2b..e91c054 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -740,6 +740,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
     char *filename = NULL;
     uint32_t filename_len = 0;
     const char *fname;
+    struct patch_file *file;
     uint32_t magic;
     char *name = NULL;
     char *evr = NULL;
@@ -788,15 +789,16 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             }
             if ((error = rpml_get_filename(filedesc, &filename, &filename_len)))
                 goto cleanup;
-            if ((patch->files[patch->file_count].name = malloc(strlen(filename) + 1)) == NULL) {
+            file = &patch->files[patch->file_count];
+            if ((file->name = malloc(strlen(filename) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
                 goto cleanup;
             }
-            strcpy(patch->files[patch->file_count].name, filename);
-            patch->files[patch->file_count].mode = S_IFREG;
-            patch->files[patch->file_count].flags = RPMFILE_UNPATCHED;
-            memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
             patch->file_count++;
+            strcpy(file->name, filename);
+            file->mode = S_IFREG;
+            file->flags = RPMFILE_UNPATCHED;
+            memset(file->md5, 0, MD5_DIGEST_LENGTH);
         }
     }
 
@@ -814,19 +816,23 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 
         fname = (strncmp(filename, "./", 2) == 0) ? filename + 2 : filename;
 
-        if ((patch->files[patch->file_count].name = malloc(strlen(fname) + 1)) == NULL) {
+        file = &patch->files[patch->file_count];
+
+        if ((file->name = malloc(strlen(fname) + 1)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
 
-        strcpy(patch->files[patch->file_count].name, fname);
-        patch->files[patch->file_count].flags = RPMFILE_NONE;
-        memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
+        patch->file_count++;
+
+        strcpy(file->name, fname);
+        file->flags = RPMFILE_NONE;
+        memset(file->md5, 0, MD5_DIGEST_LENGTH);
 
-        if ((error = rpml_get_uint16(filedesc, &patch->files[patch->file_count].mode)) != DRPM_ERR_OK)
+        if ((error = rpml_get_uint16(filedesc, &file->mode)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if (patch->files[patch->file_count].mode != 0) {
+        if (file->mode != 0) {
             if (read(filedesc, &num, 1) != 1) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup;
@@ -847,23 +853,21 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                     goto cleanup;
             }
 
-            if ((S_ISCHR(patch->files[patch->file_count].mode) || S_ISBLK(patch->files[patch->file_count].mode)) &&
+            if ((S_ISCHR(file->mode) || S_ISBLK(file->mode)) &&
                 (error = rpml_get_uint32(filedesc, NULL)) != DRPM_ERR_OK) // rdev
                 goto cleanup;
 
-            if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
+            if (S_ISREG(file->mode) || S_ISLNK(file->mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
                 if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
                     (parse_be32(buf) > 0 &&
-                     read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
+                     read(filedesc, file->md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
             }
         }
-
-        patch->file_count++;
     }
 
 cleanup:
-- 
2.43.0


From 33b1d47525bf2896c2632af99974a1bd51f04249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 58/66] fix: report running out of memory when reading patch
 lists

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index e91c054..c222fb2 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -763,7 +763,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
         goto cleanup;
 
     if ((patch->nevr = malloc(strlen(name) + strlen(evr) + 2)) == NULL) {
-        error = DRPM_ERR_FORMAT;
+        error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
 
-- 
2.43.0


From 39ce5762159311de50edb48fd8e46ad505c68c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 59/66] fix: do not read the RPM configuration again with every
 database access

---
 src/drpm_rpm.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 82cc256..a1828f6 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -25,9 +25,11 @@
 #include <string.h>
 #include <limits.h>
 #include <fcntl.h>
+#include <pthread.h>
 #include <rpm/rpmlib.h>
 #include <rpm/rpmts.h>
 #include <rpm/rpmdb.h>
+#include <rpm/rpmmacro.h>
 #include <openssl/md5.h>
 
 #define BUFFER_SIZE 4096
@@ -55,6 +57,7 @@ static void rpm_free(struct rpm *);
 static bool rpm_file_names_sane(struct rpm *);
 static int rpm_export_header(struct rpm *, unsigned char **, size_t *);
 static int rpm_export_signature(struct rpm *, unsigned char **, size_t *);
+static void rpm_read_config(void);
 static void rpm_header_unload_region(struct rpm *, rpmTagVal);
 static int rpm_read_archive(struct rpm *, const char *, off_t, bool,
                             unsigned short *, MD5_CTX *, MD5_CTX *);
@@ -1062,6 +1065,27 @@ cleanup:
     return error;
 }
 
+/* Reads the RPM configuration, which tells where the database is.
+ * Every reading adds to the memory held by librpm, so this is done
+ * only if it has not been done before. */
+static void rpm_read_config(void)
+{
+    static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+    static bool config_read = false;
+    char *dbpath;
+
+    pthread_mutex_lock(&mutex);
+
+    dbpath = rpmExpand("%{?_dbpath}", NULL);
+
+    if (!config_read || dbpath == NULL || dbpath[0] == '\0')
+        config_read = (rpmReadConfigFiles(NULL, NULL) == 0);
+
+    free(dbpath);
+
+    pthread_mutex_unlock(&mutex);
+}
+
 /* Reads only the header of an installed RPM from the database.
  * The RPM is identified by its <nevr> string. */
 int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
@@ -1121,7 +1145,7 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     }
     name = str;
 
-    rpmReadConfigFiles(NULL, NULL);
+    rpm_read_config();
 
     trans = rpmtsCreate();
 
-- 
2.43.0


From 9d3ccaae7806369f3b1eca25c58972a2c458cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 60/66] fix: do not clean up zlib and bzip2 streams whose
 initialization failed

---
 src/drpm_compstrm.c   | 4 ----
 src/drpm_decompstrm.c | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index c8611c1..ac0ae3a 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -343,10 +343,8 @@ int init_bzip2(struct compstrm *strm, int level)
 
     switch (BZ2_bzCompressInit(&strm->stream.bzip2, level, 0, 0)) {
     case BZ_CONFIG_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_CONFIG;
     case BZ_MEM_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
     case BZ_PARAM_ERROR:
         return DRPM_ERR_FORMAT;
@@ -372,10 +370,8 @@ int init_gzip(struct compstrm *strm, int level)
     switch (deflateInit2(&strm->stream.gzip, level, Z_DEFLATED,
             16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY)) {
     case Z_VERSION_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_CONFIG;
     case Z_MEM_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
     case Z_STREAM_ERROR:
         return DRPM_ERR_FORMAT;
diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index f90ca24..425ba38 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -158,10 +158,8 @@ int init_bzip2(struct decompstrm *strm)
 
     switch (BZ2_bzDecompressInit(&strm->stream.bzip2, 0, 1)) {
     case BZ_CONFIG_ERROR:
-        BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_CONFIG;
     case BZ_MEM_ERROR:
-        BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
     }
 
@@ -180,10 +178,8 @@ int init_gzip(struct decompstrm *strm)
 
     switch (inflateInit2(&strm->stream.gzip, 16 + MAX_WBITS)) {
     case Z_VERSION_ERROR:
-        inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_CONFIG;
     case Z_MEM_ERROR:
-        inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From 97cb125e588186c8eb7389f645d180774d34913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 61/66] fix: do not wait for prelink forever when SIGCHLD is
 ignored

---
 src/drpm_apply.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 506a2c6..db0fbf0 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -26,6 +26,7 @@
 #include <stdint.h>
 #include <stdbool.h>
 #include <string.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/stat.h>
@@ -654,7 +655,7 @@ int prelink_open(const char *filename, int *filedesc)
         _exit(1);
     }
 
-    while (waitpid(pid, &status, 0) == (pid_t)-1);
+    while (waitpid(pid, &status, 0) == (pid_t)-1 && errno == EINTR);
 
     if ((fd = open(template, O_RDONLY)) < 0)
         return DRPM_ERR_IO;
-- 
2.43.0


From fb5f47b8155bfe74ee8185154b3f08e0de41ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 62/66] fix: copy only the rest of a symbolic link that begins
 in an earlier block

---
 src/drpm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 52bc1bd..f209b55 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1132,7 +1132,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             } else if (S_ISLNK(blks->files[cpio->index].mode)) {
                 file_off = off - (cpio->offset + cpio->header_len);
                 linkto = blks->files[cpio->index].linkto;
-                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto));
+                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto) - file_off);
                 if (read_len) {
                     memcpy(buf_ptr, linkto + file_off, read_len);
                     buf_ptr += read_len;
-- 
2.43.0


From f37e50d5b6fb5ef9af1716cd32044f1dc0599849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 63/66] fix: remove the temporary file for prelink when it
 cannot be used

---
 src/drpm_apply.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index db0fbf0..dc83bd9 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -648,6 +648,7 @@ int prelink_open(const char *filename, int *filedesc)
 
     pid = fork();
     if (pid == (pid_t)-1) {
+        unlink(template);
         return DRPM_ERR_OTHER;
     }
     if (pid == 0) {
@@ -657,10 +658,10 @@ int prelink_open(const char *filename, int *filedesc)
 
     while (waitpid(pid, &status, 0) == (pid_t)-1 && errno == EINTR);
 
-    if ((fd = open(template, O_RDONLY)) < 0)
-        return DRPM_ERR_IO;
-
+    fd = open(template, O_RDONLY);
     unlink(template);
+    if (fd < 0)
+        return DRPM_ERR_IO;
 
     *filedesc = fd;
 
-- 
2.43.0


From 145d8666deaa5d5706b5bb361af9aa63df1025f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 64/66] fix: keep a file that occurs twice in the archive only
 once

Every further occurrence went into the sequence too, and a sequence
that names more files than there are in the header cannot be expanded:
the delta could not be applied.
---
 src/drpm_make.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index c222fb2..be98be4 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -277,6 +277,7 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
     bool file_colors;
     struct file_info file = {0};
     unsigned files_index;
+    bool *in_sequence = NULL;
 
     unsigned short digest_algo;
     unsigned char digest[MAX(MD5_DIGEST_LENGTH, SHA256_DIGEST_LENGTH)] = {0};
@@ -340,6 +341,11 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
     if ((error = rpm_get_digest_algo(rpm_file, &digest_algo)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
+    if ((in_sequence = calloc(file_count + 1, sizeof(bool))) == NULL) {
+        error = DRPM_ERR_MEMORY;
+        goto cleanup_fail;
+    }
+
     rpm_archive_rewind(rpm_file);
 
     while (true) {
@@ -393,7 +399,8 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
 
         cpio_pos += cpio_hdrname_len;
 
-        /* looking up file in RPM header, skipping if not found
+        /* looking up file in RPM header, skipping if not found,
+         * if it occurred in the archive before,
          * or if it's a regular file and one of the following occur:
          * - file size mismatch between CPIO and RPM headers
          * - bad file flags
@@ -406,7 +413,7 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
                 break;
         }
 
-        if (!(skip = (files_index == file_count))) {
+        if (!(skip = (files_index == file_count || in_sequence[files_index]))) {
             file = files[files_index];
             cpio_hdr = cpio_hdr_init;
 
@@ -535,6 +542,7 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
             /* adding file index to sequence */
             if ((error = seq_add(&seq, files_index)) != DRPM_ERR_OK)
                 goto cleanup_fail;
+            in_sequence[files_index] = true;
         }
 
         /* reading file data and copying to cpio */
@@ -622,6 +630,7 @@ cleanup:
     free(files);
     free(name_buffer);
     free(seq_files);
+    free(in_sequence);
 
     return error;
 }
-- 
2.43.0


From 0aa23e2224fdcf0ab408e58e3af87395724170b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 65/66] fix: report errors on finding out whether an installed
 file is prelinked

---
 src/drpm_apply.c   | 25 +++++++++++++++++++++++--
 src/drpm_block.c   | 26 +++++++++++++++++++-------
 src/drpm_private.h |  1 +
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index dc83bd9..5ad9513 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -520,6 +520,23 @@ uint64_t elf64(const unsigned char *buf, bool little_endian, bool is64)
     return parse_be32(buf);
 }
 
+/* reads <len> bytes at <offset>, fewer only at end of file */
+ssize_t pread_full(int fd, void *buf, size_t len, off_t offset)
+{
+    size_t total = 0;
+    ssize_t read_len;
+
+    while (total < len) {
+        if ((read_len = pread(fd, (char *)buf + total, len - total, offset + total)) < 0)
+            return -1;
+        if (read_len == 0)
+            break;
+        total += read_len;
+    }
+
+    return total;
+}
+
 int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize_t read_len)
 {
     int error = DRPM_ERR_OK;
@@ -582,8 +599,10 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    if (pread(fd, sects, snum * ssiz, soff) != snum * ssiz) {
+    if ((read_len = soff < 0 ? 0 : pread_full(fd, sects, snum * ssiz, soff)) != snum * ssiz) {
         is_prelinked = false;
+        if (read_len < 0)
+            error = DRPM_ERR_IO;
         goto cleanup;
     }
 
@@ -605,8 +624,10 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    if (pread(fd, strsect, slen, soff) != (ssize_t)slen) {
+    if ((read_len = soff < 0 ? 0 : pread_full(fd, strsect, slen, soff)) != (ssize_t)slen) {
         is_prelinked = false;
+        if (read_len < 0)
+            error = DRPM_ERR_IO;
         goto cleanup;
     }
 
diff --git a/src/drpm_block.c b/src/drpm_block.c
index f209b55..2ae3dc5 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -600,8 +600,13 @@ int open_new_file(struct blocks *blks, bool *prelinked, size_t index)
     if ((filedesc = open(file.name, O_RDONLY)) < 0)
         return DRPM_ERR_IO;
 
-    if (fstat(filedesc, &stats) == 0 && stats.st_size != file.size) {
-        if ((error = is_prelinked(prelinked, filedesc, plnk_buf, pread(filedesc, plnk_buf, 128, SEEK_SET))) != DRPM_ERR_OK) {
+    if (fstat(filedesc, &stats) != 0) {
+        close(filedesc);
+        return DRPM_ERR_IO;
+    }
+
+    if (stats.st_size != file.size) {
+        if ((error = is_prelinked(prelinked, filedesc, plnk_buf, pread_full(filedesc, plnk_buf, 128, 0))) != DRPM_ERR_OK) {
             close(filedesc);
             return error;
         }
@@ -1071,10 +1076,15 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             goto cleanup;
         }
 
-        if (fstat(filedesc, &stats) != 0 || stats.st_size == blks->files[cpio->index].size)
+        if (fstat(filedesc, &stats) != 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
+
+        if (stats.st_size == blks->files[cpio->index].size)
             break;
 
-        if ((error = is_prelinked(&prelinked, filedesc, plnk_buf, pread(filedesc, plnk_buf, 128, 0))) != DRPM_ERR_OK)
+        if ((error = is_prelinked(&prelinked, filedesc, plnk_buf, pread_full(filedesc, plnk_buf, 128, 0))) != DRPM_ERR_OK)
             goto cleanup;
 
         if (!prelinked)
@@ -1159,9 +1169,11 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
                         if ((filedesc = open(blks->files[cpio->index].name, O_RDONLY)) < 0) {
                             error = DRPM_ERR_IO;
                             goto cleanup;
-                        } else if (fstat(filedesc, &stats) == 0 &&
-                                   stats.st_size != blks->files[cpio->index].size) {
-                            if ((error = is_prelinked(&prelinked, filedesc, plnk_buf, pread(filedesc, plnk_buf, 128, 0))) != DRPM_ERR_OK)
+                        } else if (fstat(filedesc, &stats) != 0) {
+                            error = DRPM_ERR_IO;
+                            goto cleanup;
+                        } else if (stats.st_size != blks->files[cpio->index].size) {
+                            if ((error = is_prelinked(&prelinked, filedesc, plnk_buf, pread_full(filedesc, plnk_buf, 128, 0))) != DRPM_ERR_OK)
                                 goto cleanup;
                             if (prelinked) {
                                 close(filedesc);
diff --git a/src/drpm_private.h b/src/drpm_private.h
index c06a6d1..956e6e0 100644
--- a/src/drpm_private.h
+++ b/src/drpm_private.h
@@ -130,6 +130,7 @@ struct compstrm_wrapper;
 int expand_sequence(struct cpio_file **, size_t *, const unsigned char *, uint32_t,
                     const struct file_info *, size_t, unsigned short, int);
 int is_prelinked(bool *, int, const unsigned char *, ssize_t);
+ssize_t pread_full(int, void *, size_t, off_t);
 int prelink_open(const char *, int *);
 
 //drpm_block.c
-- 
2.43.0


From 96f51b1b2d827251fe343a498a6aee3646e3f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 66/66] fix: do not close a descriptor twice when prelink
 cannot be run

---
 src/drpm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 2ae3dc5..dd925dd 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1177,6 +1177,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
                                 goto cleanup;
                             if (prelinked) {
                                 close(filedesc);
+                                filedesc = -1;
                                 if ((error = prelink_open(blks->files[cpio->index].name, &filedesc)) != DRPM_ERR_OK)
                                     goto cleanup;
                             }
-- 
2.43.0

