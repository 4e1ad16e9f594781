From 349d3f04a90595228598690a5e23bc6eef2bd4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 01/77] fix: leave the source of a conversion unmodified when
 its byte order is foreign

---
 src/bigfile.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 61fc839..5376965 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1265,15 +1265,37 @@ int
 _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
 {
     /* cast buf2 of dtype2 into buf1 of dtype1 */
-    /* match src to machine endianness */
-    if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
-        BigArrayIter iter = *src;
-        byte_swap(&iter, nmemb);
-    }
-
     BigArrayIter iter1 = *dst;
     BigArrayIter iter2 = *src;
 
+    /* match src to machine endianness */
+    if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
+        /* src belongs to the caller: swap a copy, piece by piece. */
+        size_t elsize = big_file_dtype_itemsize(src->array->dtype);
+        size_t piece = 4096;
+        size_t done = 0;
+        char * buffer = malloc(elsize * piece + 1);
+        RAISEIF(buffer == NULL, ex_malloc, "No memory");
+        do {
+            BigArray piece_array;
+            BigArrayIter piece_iter, iter;
+            if(piece > nmemb - done) piece = nmemb - done;
+            big_array_init(&piece_array, buffer, src->array->dtype, 1, &piece, NULL);
+            big_array_iter_init(&piece_iter, &piece_array);
+            iter = piece_iter;
+            cast(&iter, &iter2, piece);
+            iter = piece_iter;
+            byte_swap(&iter, piece);
+            iter = piece_iter;
+            if(0 != cast(&iter1, &iter, piece)) {
+                /* cast is not supported */
+                free(buffer);
+                return -1;
+            }
+            done += piece;
+        } while(done < nmemb);
+        free(buffer);
+    } else
     if(0 != cast(&iter1, &iter2, nmemb)) {
         /* cast is not supported */
         return -1;
@@ -1287,6 +1309,8 @@ _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
     *dst = iter1;
     *src = iter2;
     return 0;
+ex_malloc:
+    return -1;
 }
 
 
-- 
2.43.0


From 62ff8d0d135a5bf379ad1f9eb3074bb872106c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 02/77] fix: swap the bytes of complex numbers part by part,
 and never those of strings

---
 src/bigfile.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 5376965..ba82284 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1319,18 +1319,25 @@ byte_swap(BigArrayIter * iter, size_t nmemb)
 {
     /* swap a buffer in-place */
     int elsize = big_file_dtype_itemsize(iter->array->dtype);
-    if(elsize == 1) return;
+    int unit = elsize;
+    /* both parts of a complex number are swapped in their places */
+    if(iter->array->dtype[1] == 'c') unit = elsize >> 1;
+    /* strings have no byte order */
+    if(iter->array->dtype[1] == 'S') unit = 1;
+    if(unit <= 1) return;
     /* need byte swap; do it now on buf2 */
     /* XXX: this may still be wrong. */
     ptrdiff_t i;
-    int half = elsize >> 1;
+    int half = unit >> 1;
     for(i = 0; i < nmemb; i ++) {
-        int j;
-        char * ptr = iter->dataptr;
-        for(j = 0; j < half; j ++) {
-            char tmp = ptr[j];
-            ptr[j] = ptr[elsize - j - 1];
-            ptr[elsize - j - 1] = tmp;
+        int j, k;
+        for(k = 0; k + unit <= elsize; k += unit) {
+            char * ptr = (char *) iter->dataptr + k;
+            for(j = 0; j < half; j ++) {
+                char tmp = ptr[j];
+                ptr[j] = ptr[unit - j - 1];
+                ptr[unit - j - 1] = tmp;
+            }
         }
         big_array_iter_advance(iter);
     }
-- 
2.43.0


From ff55d3dc003452545667bafb818764728070dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 03/77] fix: open columns that have an attribute without data

---
 src/bigfile.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index ba82284..f0cde00 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1545,14 +1545,18 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
         ATTRV2_EXPECT(name);
         ATTRV2_EXPECT(dtype);
         ATTRV2_EXPECT(rawlength);
-        ATTRV2_EXPECT(rawdata);
+        int nmemb = atoi(rawlength);
+        int itemsize = big_file_dtype_itemsize(dtype);
+        char * rawdata = "";
+        /* an attribute without data has no token here */
+        if(nmemb * itemsize != 0) {
+            ATTRV2_EXPECT(token);
+            rawdata = token;
+        }
         /* skip the reset of the line */
         while(buffer[i] != '\n' && buffer[i]) i ++;
         if(buffer[i] == '\n') i++;
 
-        int nmemb = atoi(rawlength);
-        int itemsize = big_file_dtype_itemsize(dtype);
-
         RAISEIF(nmemb * itemsize * 2!= strlen(rawdata),
             ex_parse_attr,
             "NMEMB and data mismiatch: %d x %d (%s) * 2 != %d",
-- 
2.43.0


From fb79e3a2ba6a5ecd48175f624cbcce6fa19e15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 04/77] fix: refuse an empty attribute name, it makes the
 column unreadable

---
 src/bigfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index f0cde00..549566e 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1765,6 +1765,7 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
       ex_name,
       "Attribute name cannot contain blanks (space, tab or newline)"
     );
+    RAISEIF(attrname[0] == 0, ex_name, "Attribute name cannot be empty");
 
     /* Remove it if it exists*/
     attr = attrset_lookup_attr(attrset, attrname);
-- 
2.43.0


From 9ec509d37d6f2c50855b949176176ed34e07d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 05/77] fix: save the removal of an attribute

---
 src/bigfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 549566e..f5b0d1b 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1738,6 +1738,7 @@ attrset_remove_attr(BigAttrSet * attrset, const char * attrname)
     memmove(&attrset->attrlist[ind], &attrset->attrlist[ind + 1],
         (attrset->listused - ind - 1) * sizeof(BigAttr));
     attrset->listused -= 1;
+    attrset->dirty = 1;
 
     return 0;
 
-- 
2.43.0


From c1883cfe8d952a9a5d785fc606855903511440ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 06/77] fix: refuse attributes whose type cannot be stored and
 read again

---
 src/bigfile.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index f5b0d1b..b1d6799 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -74,6 +74,8 @@ dtype_convert_simple(void * dst, const char * dstdtype, const void * src, const
 
 /*Check dtype is valid*/
 static int dtype_isvalid(const char * dtype);
+/*Check dtype survives being stored and parsed again*/
+static int dtype_isstorable(const char * dtype);
 
 /* postfix detection, 1 if postfix is a postfix of str */
 static int
@@ -1049,6 +1051,22 @@ dtype_isvalid(const char * dtype)
     return 1;
 }
 
+/* Check that a (not necessarily normalized) dtype is a kind followed by a width,
+ * and is short enough to be stored. Returns 1 if so. */
+static int
+dtype_isstorable(const char * dtype)
+{
+    char ndtype[8];
+    size_t prefix = (dtype[0] && strchr("<>|=", dtype[0])) ? 1 : 0;
+    size_t digits;
+    if(strlen(dtype + prefix) > 6)
+        return 0;
+    _dtype_normalize(ndtype, dtype);
+    digits = strspn(&ndtype[2], "0123456789");
+    return ((ndtype[1] >= 'a' && ndtype[1] <= 'z') || (ndtype[1] >= 'A' && ndtype[1] <= 'Z'))
+        && digits > 0 && ndtype[2 + digits] == 0;
+}
+
 int
 big_file_dtype_itemsize(const char * dtype)
 {
@@ -1767,6 +1785,8 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
       "Attribute name cannot contain blanks (space, tab or newline)"
     );
     RAISEIF(attrname[0] == 0, ex_name, "Attribute name cannot be empty");
+    RAISEIF(!dtype_isstorable(dtype) || nmemb < 0, ex_name,
+        "Attribute cannot be stored with dtype `%s' and length %d", dtype, nmemb);
 
     /* Remove it if it exists*/
     attr = attrset_lookup_attr(attrset, attrname);
-- 
2.43.0


From ff6db545a4d153cb375d289583469c1543cd75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 07/77] fix: refuse to create a column that could not be opened
 again

---
 src/bigfile.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index b1d6799..77a6893 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -486,6 +486,14 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
       "Column name cannot contain blanks (space, tab or newline)"
     );
 
+    if(!endswith(basename, "/.") && 0 != strcmp(basename, ".") && dtype != NULL) {
+        char ndtype[8];
+        _dtype_normalize(ndtype, dtype);
+        RAISEIF(!dtype_isstorable(dtype) || !dtype_isvalid(ndtype) || nmemb < 0 || Nfile < 0,
+            ex_name,
+            "Column cannot be stored with dtype `%s', nmemb %d and %d files", dtype, nmemb, Nfile);
+    }
+
     bb->basename = _strdup(basename);
 
     bb->attrset = attrset_create();
-- 
2.43.0


From 034f81999c8b16e52be2c70fecc25a6a79097063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 08/77] fix: build error messages of any text and length safely

---
 src/bigfile.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 77a6893..78642bb 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -158,7 +158,9 @@ _big_file_path_is_block(const char * basename)
 void
 _big_file_raise(const char * msg, const char * file, const int line, ...)
 {
+    int israised = 0;
     if(!msg) {
+        israised = 1;
         if(ERRORSTR) {
             msg = ERRORSTR;
         } else {
@@ -166,18 +168,25 @@ _big_file_raise(const char * msg, const char * file, const int line, ...)
         }
     }
 
-    size_t len = strlen(msg) + strlen(file) + 512;
-    char * errorstr = malloc(len);
-
-    char * fmtstr = alloca(len);
-    sprintf(fmtstr, "%s @(%s:%d)", msg, file, line);
-    va_list va;
+    va_list va, va2;
     va_start(va, line);
-    vsprintf(errorstr, fmtstr, va);
+    va_copy(va2, va);
+    /* a message that is passed on is not a format any more */
+    int len1 = israised ? (int) strlen(msg) : vsnprintf(NULL, 0, msg, va);
     va_end(va);
+    if(len1 < 0) len1 = strlen(msg);
 
-    big_file_set_error_message(errorstr);
-    free(errorstr);
+    size_t len = len1 + strlen(file) + 64;
+    char * errorstr = malloc(len);
+    if(errorstr) {
+        if(israised || 0 > vsnprintf(errorstr, len1 + 1, msg, va2)) {
+            memcpy(errorstr, msg, len1);
+        }
+        snprintf(errorstr + len1, len - len1, " @(%s:%d)", file, line);
+        big_file_set_error_message(errorstr);
+        free(errorstr);
+    }
+    va_end(va2);
 }
 
 /* BigFile */
-- 
2.43.0


From 7c8e9c96ac7aa7ab4df63e1fe45c5c6e7e4f7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 09/77] fix: keep the error message per thread, another thread
 could free it in use

---
 src/bigfile.c | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 78642bb..35a41c1 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -25,11 +25,15 @@
 #define FILEID_ATTR_V2 -3
 #define FILEID_HEADER -1
 
-#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
-    #include <stdatomic.h>
-static char * volatile _Atomic ERRORSTR = NULL;
+/* Every thread has its own message: a message must not be freed by another thread
+ * while it is being read, and a thread reads about its own failure. */
+#if __STDC_VERSION__ >= 201112L
+static _Thread_local char * ERRORSTR = NULL;
+#elif defined(__GNUC__)
+static __thread char * ERRORSTR = NULL;
 #else
-static char * volatile ERRORSTR = NULL;
+    #warning "enable -std=c11 or -std=gnu11, or use gcc for thread friendly error handling"
+static char * ERRORSTR = NULL;
 #endif
 
 static size_t CHUNK_BYTES = 64 * 1024 * 1024;
@@ -105,23 +109,8 @@ char * big_file_get_error_message() {
 void
 big_file_set_error_message(char * msg)
 {
-    char * errorstr;
-    if(msg != NULL) msg = _strdup(msg);
-
-#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
-    errorstr = atomic_exchange(&ERRORSTR, msg);
-#elif defined(__ATOMIC_SEQ_CST)
-    errorstr = __atomic_exchange_n(&ERRORSTR, msg, __ATOMIC_SEQ_CST);
-#elif _OPENMP >= 201307
-    /* openmp 4.0 supports swap capture*/
-    #pragma omp capture 
-     { errorstr = ERRORSTR; ERRORSTR = msg; }
-#else
-    errorstr = ERRORSTR;
-    ERRORSTR = msg;
-    /* really should have propagated errors over the stack! */
-    #warning "enable -std=c11 or -std=gnu11, or luse gcc for thread friendly error handling"
-#endif
+    char * errorstr = ERRORSTR;
+    ERRORSTR = (msg != NULL) ? _strdup(msg) : NULL;
 
     if(errorstr) free(errorstr);
 }
-- 
2.43.0


From e1d8d79eb36c5302fdbdfed19b2f8bfd410c3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 10/77] fix: keep the whole cause in error messages

---
 src/bigfile-internal.h | 8 ++------
 src/bigfile.c          | 4 ++--
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/bigfile-internal.h b/src/bigfile-internal.h
index 837964e..1459c3b 100644
--- a/src/bigfile-internal.h
+++ b/src/bigfile-internal.h
@@ -32,13 +32,9 @@ int _big_block_create(BigBlock * bb, const char * basename, const char * dtype,
 static inline char *
 _strdup(const char * s)
 {
-    size_t l = 0;
-    while(l < 8192 && s[l]) {
-        l++;
-    }
+    size_t l = strlen(s);
     char * r = malloc(l + 1);
-    strncpy(r, s, l);
-    r[l] = '\0';
+    memcpy(r, s, l + 1);
     return r;
 }
 
diff --git a/src/bigfile.c b/src/bigfile.c
index 35a41c1..238fec3 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -774,7 +774,7 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
 
     RAISEIF(0 != big_block_seek(bb, &ptr, start),
        ex_seek,
-       "failed to seek"       
+       NULL
     );
 
     if(start + size > bb->size){
@@ -793,7 +793,7 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
 
     RAISEIF(0 != big_block_read(bb, &ptr, array),
             ex_read,
-            "failed to read");
+            NULL);
     return 0;
 ex_read:
     free(buffer);
-- 
2.43.0


From 45ceccec0708e05dfe628c2d6bc15ca9c63f205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 11/77] fix: transfer rows that are wider than the I/O buffer

---
 src/bigfile.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 238fec3..1337de1 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -805,11 +805,12 @@ ex_seek:
 int
 big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
-    char * chunkbuf = malloc(CHUNK_BYTES);
-
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    /* at least one row, and nothing for the meta block, which has no rows */
+    size_t CHUNK_SIZE = felsize > 0 ? CHUNK_BYTES / felsize : 0;
+    if(CHUNK_SIZE == 0) CHUNK_SIZE = 1;
+    char * chunkbuf = malloc(CHUNK_SIZE * felsize + 1);
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -901,10 +902,12 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     if(array->size == 0) return 0;
     /* the file header is modified */
     bb->dirty = 1;
-    char * chunkbuf = malloc(CHUNK_BYTES);
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    /* at least one row, and nothing for the meta block, which has no rows */
+    size_t CHUNK_SIZE = felsize > 0 ? CHUNK_BYTES / felsize : 0;
+    if(CHUNK_SIZE == 0) CHUNK_SIZE = 1;
+    char * chunkbuf = malloc(CHUNK_SIZE * felsize + 1);
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -918,7 +921,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 
     RAISEIF(chunkbuf == NULL,
             ex_malloc,
-            "not enough memory for chunkbuf of size %d bytes", CHUNK_BYTES);
+            "not enough memory for chunkbuf of size %td bytes", CHUNK_SIZE * felsize);
 
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
-- 
2.43.0


From 773dd4efb664237a2fd5bea7282cf2db72a4b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 12/77] fix: read on from the former end of a column that has
 grown

---
 src/bigfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 1337de1..d6b51ee 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -838,6 +838,11 @@ big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
                 "Reading beyond the block `%s` at (%d:%td)",
                 bb->basename, ptr->fileid, ptr->roffset * felsize);
 
+    /* the column may have grown since the pointer was placed at its end */
+    RAISEIF(0 != big_block_seek_rel(bb, ptr, 0),
+            ex_eof,
+            NULL);
+
     while(toread > 0 && ! big_block_eof(bb, ptr)) {
         size_t chunk_size = CHUNK_SIZE;
         /* remaining items in the file */
-- 
2.43.0


From 9f7a78b2c2586edaecb8eaf183d8cda6b9fbf9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 13/77] fix: do not crash when the meta block is asked for data
 or a position

---
 src/bigfile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index d6b51ee..b2fd276 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -400,6 +400,9 @@ ex_open:
     } else {
         /* The meta block of a big file, has on extra files. */
         bb->Nfile = 0;
+        bb->foffset = calloc(1, sizeof(size_t));
+        RAISEIF(!bb->foffset, ex_readattr,
+                "Failed to alloc memory of block `%s'", bb->basename);
         strcpy(bb->dtype, "####");
         return 0;
     }
@@ -542,6 +545,9 @@ ex_fsize:
     } else {
         /* special meta block of a file */
         bb->Nfile = 0;
+        strcpy(bb->dtype, "####");
+        bb->foffset = calloc(1, sizeof(size_t));
+        RAISEIF(!bb->foffset, ex_flush2, "No memory");
         /* never flush the header */
         bb->dirty = 0;
 
@@ -553,6 +559,7 @@ ex_fsize:
 
 ex_flush2:
         attrset_free(bb->attrset);
+        free(bb->foffset);
         return -1;
     }
 
-- 
2.43.0


From 50c3e12796cd45cc34da6e76c767655847e77c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 14/77] fix: refuse a relative seek to before the first row

---
 src/bigfile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index b2fd276..6ea92de 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -749,7 +749,13 @@ int
 big_block_seek_rel(BigBlock * bb, BigBlockPtr * ptr, ptrdiff_t rel)
 {
     ptrdiff_t abs = bb->foffset[ptr->fileid] + ptr->roffset + rel;
+    /* a negative result does not count from the end */
+    RAISEIF(abs < 0,
+            ex_bof,
+            "Before the beginning of file %td", abs);
     return big_block_seek(bb, ptr, abs);
+ex_bof:
+    return -1;
 }
 
 int
-- 
2.43.0


From 575701fc775c4fa70e67f7ba58a7ba0ac79f103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 15/77] fix: cut a one-call read that starts relative to the
 end at the end

---
 src/bigfile.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 6ea92de..ceb8928 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -790,12 +790,15 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
        NULL
     );
 
-    if(start + size > bb->size){
-        size = bb->size - start;
-    }
+    /* count from where the seek went; start may be relative to the end. */
+    start = ptr.aoffset;
+
     RAISEIF(size < 0,
             ex_seek,
-            "failed to seek");
+            "Cannot read %td rows", size);
+    if(size > (ptrdiff_t) bb->size - start){
+        size = bb->size - start;
+    }
 
     buffer = malloc(size * big_file_dtype_itemsize(dtype) * bb->nmemb);
 
-- 
2.43.0


From 4413ab0c29b1bea05551258f4bb0e5ac05e7c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 16/77] fix: a refused write or attribute does not make the
 handle save stale metadata

---
 src/bigfile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index ceb8928..e8005fb 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -921,8 +921,6 @@ int
 big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
     if(array->size == 0) return 0;
-    /* the file header is modified */
-    bb->dirty = 1;
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
     /* at least one row, and nothing for the meta block, which has no rows */
@@ -972,6 +970,8 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
         RAISEIF(0 != _dtype_convert(&chunk_iter, &array_iter, chunk_size * bb->nmemb),
             ex_convert, NULL);
 
+        /* the file header is modified */
+        bb->dirty = 1;
         sysvsum(&bb->fchecksum[ptr->fileid], chunkbuf, chunk_size * felsize);
 
         fp = _big_file_open_a_file(bb->basename, ptr->fileid, "r+", 1);
@@ -1805,7 +1805,6 @@ static int
 attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data, const char * dtype, int nmemb)
 {
     BigAttr * attr;
-    attrset->dirty = 1;
 
     RAISEIF (
          strchr(attrname, ' ')
@@ -1818,6 +1817,7 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
     RAISEIF(!dtype_isstorable(dtype) || nmemb < 0, ex_name,
         "Attribute cannot be stored with dtype `%s' and length %d", dtype, nmemb);
 
+    attrset->dirty = 1;
     /* Remove it if it exists*/
     attr = attrset_lookup_attr(attrset, attrname);
     if(attr)
-- 
2.43.0


From 679f7a8a7b125659d88fa86e6a87159b38ab5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 17/77] fix: report write errors that show when a file is
 closed

---
 src/bigfile.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index e8005fb..8d8da40 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -464,7 +464,9 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create physical file %d of block `%s' (%s)", i, bb->basename, strerror(errno));
     }
     return 0;
 
@@ -582,7 +584,9 @@ _big_block_create(BigBlock * bb, const char * basename, const char * dtype, int
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create physical file %d of block `%s' (%s)", i, bb->basename, strerror(errno));
     }
 ex_internal:
     return rt;
@@ -618,7 +622,9 @@ big_block_flush(BigBlock * block)
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
                 ex_fprintf, "Writing file information to header");
         }
-        fclose(fheader);
+        RAISEIF(0 != fclose(fheader),
+            ex_fileio,
+            "Failed to write header of block `%s' (%s)", block->basename, strerror(errno));
         block->dirty = 0;
     }
     if(block->attrset->dirty) {
@@ -986,7 +992,10 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
                 ex_write,
                 "Failed to write in block `%s' at (%d:%td) (%s)",
                 bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_close,
+                "Failed to write in block `%s' at (%d:%td) (%s)",
+                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
 
         towrite -= chunk_size;
         RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
@@ -997,6 +1006,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 ex_write:
 ex_seek:
     fclose(fp);
+ex_close:
 ex_convert:
 ex_open:
 ex_blockseek:
@@ -1704,11 +1714,15 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             ex_write,
             "Failed to write to file");
     } 
-    fclose(fattr);
+    RAISEIF(0 != fclose(fattr),
+            ex_open,
+            "Failed to write attributes of `%s' (%s)", basename, strerror(errno));
     return 0;
 ex_write:
     fclose(fattr);
 ex_open:
+    /* not saved yet */
+    attrset->dirty = 1;
     return -1;
 }
 
-- 
2.43.0


From b1f139b6cff38f803f94322409f4a9dc41c1ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 18/77] fix: a column that could not be grown keeps its
 description

---
 src/bigfile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 8d8da40..9230397 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -471,6 +471,9 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
     return 0;
 
 ex_fileio:
+    /* keep the description of what is there */
+    bb->Nfile = oldNfile;
+    bb->size = bb->foffset[oldNfile];
     return -1;
 }
 
-- 
2.43.0


From 489ee95c4ee9b749405cf92be534565a5cd343be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 19/77] fix: an attribute file that cannot be read is an error,
 not an empty set

---
 src/bigfile.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 9230397..8058f2a 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1530,6 +1530,8 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
     if(fattr == NULL) {
+        RAISEIF(errno != ENOENT, ex_open,
+            "Failed to open attributes of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
     int nmemb;
@@ -1567,6 +1569,7 @@ ex_set_attr:
 ex_fread:
     attrset->dirty = 0;
     fclose(fattr);
+ex_open:
     return -1;
 }
 
@@ -1581,9 +1584,11 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "r", 0);
     if(fattr == NULL) {
+        RAISEIF(errno != ENOENT, ex_open,
+            "Failed to open attributes of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
-    fseek(fattr, 0, SEEK_END);
+    RAISEIF(0 != fseek(fattr, 0, SEEK_END), ex_init, "fseek error: %s", strerror(errno));
     long size = ftell(fattr);
     /*ftell may fail*/
     RAISEIF(size < 0, ex_init, "ftell error: %s",strerror(errno));
@@ -1651,6 +1656,7 @@ ex_data:
     free(buffer);
 ex_init:
     fclose(fattr);
+ex_open:
     return -1;
 }
 static int
-- 
2.43.0


From 9c4466fe885991ca022e55011a85c71f0f95b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 20/77] fix: refuse malformed column headers instead of
 overflowing or misreading them

---
 src/bigfile.c | 51 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 8058f2a..f421077 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -336,19 +336,25 @@ _big_block_open(BigBlock * bb, const char * basename)
                 ex_open,
                 NULL);
 
+        char dtype[16] = {0};
+        long nmemb = -1, Nfile = -1;
+        errno = 0;
         RAISEIF(
-               (1 != fscanf(fheader, " DTYPE: %s", bb->dtype)) ||
-               (1 != fscanf(fheader, " NMEMB: %d", &(bb->nmemb))) ||
-               (1 != fscanf(fheader, " NFILE: %d", &(bb->Nfile))),
+               (1 != fscanf(fheader, " DTYPE: %15s", dtype)) ||
+               (1 != fscanf(fheader, " NMEMB: %ld", &nmemb)) ||
+               (1 != fscanf(fheader, " NFILE: %ld", &Nfile)),
                ex_fscanf,
                "Failed to read header of block `%s' (%s)", bb->basename, strerror(errno));
 
-        RAISEIF(bb->Nfile < 0 || bb->Nfile >= INT_MAX-1, ex_fscanf, 
-                "Unreasonable value for Nfile in header of block `%s' (%d)",bb->basename,bb->Nfile);
-        RAISEIF(bb->nmemb < 0, ex_fscanf, 
-                "Unreasonable value for nmemb in header of block `%s' (%d)",bb->basename,bb->nmemb);
-        RAISEIF(!dtype_isvalid(bb->dtype), ex_fscanf, 
-                "Unreasonable value for dtype in header of block `%s' (%s)",bb->basename,bb->dtype);
+        RAISEIF(Nfile < 0 || Nfile >= INT_MAX-1, ex_fscanf, 
+                "Unreasonable value for Nfile in header of block `%s' (%ld)",bb->basename,Nfile);
+        RAISEIF(nmemb < 0 || nmemb > INT_MAX, ex_fscanf, 
+                "Unreasonable value for nmemb in header of block `%s' (%ld)",bb->basename,nmemb);
+        RAISEIF(!dtype_isvalid(dtype) || !dtype_isstorable(dtype), ex_fscanf, 
+                "Unreasonable value for dtype in header of block `%s' (%s)",bb->basename,dtype);
+        strcpy(bb->dtype, dtype);
+        bb->nmemb = nmemb;
+        bb->Nfile = Nfile;
         bb->fsize = calloc(bb->Nfile + 1, sizeof(size_t));
         RAISEIF(!bb->fsize,
                 ex_fsize,
@@ -363,21 +369,31 @@ _big_block_open(BigBlock * bb, const char * basename)
                 "Failed to alloc memory `%s'", bb->basename);
         int i;
         for(i = 0; i < bb->Nfile; i ++) {
-            int fid; 
-            size_t size;
-            unsigned int cksum;
-            unsigned int sysv;
-            RAISEIF(4 != fscanf(fheader, " " EXT_DATA ": %td : %u : %u", &fid, &size, &cksum, &sysv),
+            /* not seen yet */
+            bb->fsize[i] = (size_t) -1;
+        }
+        for(i = 0; i < bb->Nfile; i ++) {
+            int fid = -1;
+            ptrdiff_t size;
+            long long cksum;
+            long long sysv;
+            RAISEIF(4 != fscanf(fheader, " " EXT_DATA ": %td : %lld : %lld", &fid, &size, &cksum, &sysv),
                     ex_fscanf1,
-                    "Failed to readin physical file layout `%s' %d (%s)", bb->basename, fid,
+                    "Failed to readin physical file layout `%s' %d (%s)", bb->basename, i,
                     strerror(errno));
             RAISEIF(fid < 0 || fid >= bb->Nfile, ex_fscanf1,
                     "Non-existent file referenced: `%s' (%d)", bb->basename, fid);
+            RAISEIF(bb->fsize[fid] != (size_t) -1, ex_fscanf1,
+                    "File referenced twice: `%s' (%d)", bb->basename, fid);
+            RAISEIF(size < 0 || size == PTRDIFF_MAX || cksum < 0 || cksum > UINT_MAX, ex_fscanf1,
+                    "Unreasonable size or checksum of a file: `%s' (%d)", bb->basename, fid);
             bb->fsize[fid] = size;
             bb->fchecksum[fid] = cksum;
         }
         bb->foffset[0] = 0;
         for(i = 0; i < bb->Nfile; i ++) {
+            RAISEIF(bb->fsize[i] > PTRDIFF_MAX - bb->foffset[i], ex_fscanf1,
+                    "Unreasonable size of block `%s'", bb->basename);
             bb->foffset[i + 1] = bb->foffset[i] + bb->fsize[i];
         }
         bb->size = bb->foffset[bb->Nfile];
@@ -387,15 +403,13 @@ _big_block_open(BigBlock * bb, const char * basename)
         return 0;
 
 ex_fscanf1:
-        free(bb->fchecksum);
 ex_fchecksum:
-        free(bb->foffset);
 ex_foffset:
-        free(bb->fsize);
 ex_fsize:
 ex_fscanf:
         fclose(fheader);
 ex_open:
+        _big_block_close_internal(bb);
         return -1;
     } else {
         /* The meta block of a big file, has on extra files. */
@@ -408,6 +422,7 @@ ex_open:
     }
 
 ex_readattr:
+        _big_block_close_internal(bb);
         return -1;
 }
 
-- 
2.43.0


From a71d85353aa560354716a2e94d1745e3b05671f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 21/77] fix: refuse malformed attribute files instead of
 overrunning or misreading them

---
 src/bigfile.c | 61 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index f421077..8e22871 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1554,21 +1554,31 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     char dtype[9]={0};
     char * data;
     char * name;
-    while(!feof(fattr)) {
-        if(1 != fread(&nmemb, sizeof(int), 1, fattr)) break;
+    char * buffer = NULL;
+    struct stat st;
+    RAISEIF(0 != fstat(fileno(fattr), &st), ex_fread, "Failed to stat file (%s)", strerror(errno));
+    /* a sub-directory may have the name of the file */
+    while(!S_ISDIR(st.st_mode)) {
+        size_t n = fread(&nmemb, 1, sizeof(int), fattr);
+        if(n == 0 && feof(fattr)) break;
         RAISEIF(
+            (n != sizeof(int)) ||
             (1 != fread(&lname, sizeof(int), 1, fattr)) ||
             (1 != fread(&dtype, 8, 1, fattr)) ||
-            (!dtype_isvalid(dtype)),
+            (!dtype_isvalid(dtype)) ||
+            nmemb < 0 || lname < 0 || lname > st.st_size ||
+            nmemb > st.st_size / big_file_dtype_itemsize(dtype),
             ex_fread,
             "Failed to read from file"
                 )
-        int ldata = big_file_dtype_itemsize(dtype) * nmemb;
-        data = alloca(ldata);
-        name = alloca(lname + 1);
+        size_t ldata = (size_t) big_file_dtype_itemsize(dtype) * nmemb;
+        buffer = realloc(buffer, lname + 1 + ldata);
+        RAISEIF(buffer == NULL, ex_fread, "No memory");
+        name = buffer;
+        data = buffer + lname + 1;
         RAISEIF(
-            (1 != fread(name, lname, 1, fattr)) ||
-            (1 != fread(data, ldata, 1, fattr)),
+            (lname != fread(name, 1, lname, fattr)) ||
+            (ldata != fread(data, 1, ldata, fattr)),
             ex_fread,
             "Failed to read from file");
 
@@ -1577,11 +1587,13 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
             ex_set_attr,
             NULL);
     }
+    free(buffer);
     attrset->dirty = 0;
     fclose(fattr);
     return 0;
 ex_set_attr:
 ex_fread:
+    free(buffer);
     attrset->dirty = 0;
     fclose(fattr);
 ex_open:
@@ -1616,21 +1628,33 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
             ex_read_file,
             "Failed to read attribute file\n");
     buffer[size] = 0;
+    RAISEIF(size != strlen(buffer),
+            ex_read_file,
+            "Malformed attributes of `%s'", basename);
 
     /* now parse the v2 attr file.*/
     long i = 0;
     #define ATTRV2_EXPECT(variable) while(_isblank(buffer[i])) i++; \
                     char * variable = buffer + i; \
-                    while(!_isblank(buffer[i])) i++; buffer[i] = 0; i++;
+                    while(buffer[i] && buffer[i] != '\n' && !_isblank(buffer[i])) i++; \
+                    RAISEIF(!_isblank(buffer[i]) || variable == buffer + i, \
+                        ex_parse_attr, \
+                        "Malformed line in attributes of `%s'", basename); \
+                    buffer[i] = 0; i++;
     while(buffer[i]) {
         ATTRV2_EXPECT(name);
         ATTRV2_EXPECT(dtype);
         ATTRV2_EXPECT(rawlength);
-        int nmemb = atoi(rawlength);
-        int itemsize = big_file_dtype_itemsize(dtype);
+
+        char * end = NULL;
+        long nmemb = strtol(rawlength, &end, 10);
+        RAISEIF(*end != 0 || nmemb < 0 || nmemb > size || !dtype_isstorable(dtype),
+            ex_parse_attr,
+            "Malformed line in attributes of `%s'", basename);
+        size_t ldata = (size_t) nmemb * big_file_dtype_itemsize(dtype);
         char * rawdata = "";
         /* an attribute without data has no token here */
-        if(nmemb * itemsize != 0) {
+        if(ldata != 0) {
             ATTRV2_EXPECT(token);
             rawdata = token;
         }
@@ -1638,13 +1662,16 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
         while(buffer[i] != '\n' && buffer[i]) i ++;
         if(buffer[i] == '\n') i++;
 
-        RAISEIF(nmemb * itemsize * 2!= strlen(rawdata),
+        RAISEIF(ldata * 2 != strlen(rawdata),
             ex_parse_attr,
-            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %d",
-            nmemb, itemsize, dtype, strlen(rawdata));
+            "NMEMB and data mismiatch: %ld (%s) * 2 != %td",
+            nmemb, dtype, strlen(rawdata));
+        RAISEIF(strspn(rawdata, "0123456789ABCDEFabcdef") != strlen(rawdata),
+            ex_parse_attr,
+            "Malformed line in attributes of `%s'", basename);
 
-        int j, k;
-        for(k = 0, j = 0; k < nmemb * itemsize; k ++, j += 2) {
+        size_t j, k;
+        for(k = 0, j = 0; k < ldata; k ++, j += 2) {
             char buf[3];
             buf[0] = rawdata[j];
             buf[1] = rawdata[j+1];
-- 
2.43.0


From d409804635278f37e8c559429353f2fbb19d7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 22/77] fix: a directory named header does not make its parent
 a column

---
 src/bigfile.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 8e22871..ca7473d 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -135,12 +135,12 @@ static char * _path_join(const char * part1, const char * part2)
 static int
 _big_file_path_is_block(const char * basename)
 {
-    FILE * fheader = _big_file_open_a_file(basename, FILEID_HEADER, "r", 0);
-    if(fheader == NULL) {
-        return 0;
-    }
-    fclose(fheader);
-    return 1;
+    /* a directory may have that name, too */
+    struct stat st;
+    char * filename = _path_join(basename, EXT_HEADER);
+    int rt = stat(filename, &st);
+    free(filename);
+    return rt == 0 && !S_ISDIR(st.st_mode);
 }
 
 
-- 
2.43.0


From 24b1b468ae7b6c6818f84ab19d1f34b35f442ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 23/77] fix: an incomplete listing is an error

---
 src/bigfile.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index ca7473d..45f206a 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -221,7 +221,7 @@ _alphasort (const struct dirent **a, const struct dirent **b)
 }
 
 static struct
-bblist * listbigfile_r(const char * basename, char * blockname, struct bblist * bblist) {
+bblist * listbigfile_r(const char * basename, char * blockname, struct bblist * bblist, int * failed) {
     struct dirent **namelist;
     int n;
     int i;
@@ -230,9 +230,14 @@ bblist * listbigfile_r(const char * basename, char * blockname, struct bblist *
     current = _path_join(basename, blockname);
 
     n = scandir(current, &namelist, filter, _alphasort);
-    free(current);
-    if (n < 0)
+    if (n < 0) {
+        /* plain files and what we may not see are skipped, but a directory that
+         * cannot be read for another reason would make the list incomplete */
+        if(errno != ENOTDIR && errno != ENOENT && errno != EACCES && errno != ELOOP) *failed = errno;
+        free(current);
         return bblist;
+    }
+    free(current);
 
     for(i = 0; i < n ; i ++) {
         char * blockname1 = _path_join(blockname, namelist[i]->d_name);
@@ -244,7 +249,7 @@ bblist * listbigfile_r(const char * basename, char * blockname, struct bblist *
             strcpy(n->blockname, blockname1);
             bblist = n;
         } else {
-            bblist = listbigfile_r(basename, blockname1, bblist);
+            bblist = listbigfile_r(basename, blockname1, bblist, failed);
         }
         free(fullpath1);
         free(blockname1);
@@ -257,7 +262,8 @@ bblist * listbigfile_r(const char * basename, char * blockname, struct bblist *
 int
 big_file_list(BigFile * bf, char *** blocknames, int * Nblocks)
 {
-    struct bblist * bblist = listbigfile_r(bf->basename, "", NULL);
+    int failed = 0;
+    struct bblist * bblist = listbigfile_r(bf->basename, "", NULL, &failed);
     struct bblist * p;
     int N = 0;
     int i;
@@ -272,7 +278,16 @@ big_file_list(BigFile * bf, char *** blocknames, int * Nblocks)
         bblist = bblist->next;
         free(p); 
     }
+    RAISEIF(failed != 0,
+            ex_list,
+            "Failed to list `%s' (%s)", bf->basename, strerror(failed));
     return 0;
+ex_list:
+    for(i = 0; i < N; i ++) free((*blocknames)[i]);
+    free(*blocknames);
+    *blocknames = NULL;
+    *Nblocks = 0;
+    return -1;
 }
 
 int
-- 
2.43.0


From e846e54c0d821f195f52189226a4fc4bec0215a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 24/77] fix: do not touch memory for files a malformed header
 only claims

---
 src/bigfile.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 45f206a..665aa89 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -383,10 +383,6 @@ _big_block_open(BigBlock * bb, const char * basename)
                 ex_fchecksum,
                 "Failed to alloc memory `%s'", bb->basename);
         int i;
-        for(i = 0; i < bb->Nfile; i ++) {
-            /* not seen yet */
-            bb->fsize[i] = (size_t) -1;
-        }
         for(i = 0; i < bb->Nfile; i ++) {
             int fid = -1;
             ptrdiff_t size;
@@ -398,15 +394,17 @@ _big_block_open(BigBlock * bb, const char * basename)
                     strerror(errno));
             RAISEIF(fid < 0 || fid >= bb->Nfile, ex_fscanf1,
                     "Non-existent file referenced: `%s' (%d)", bb->basename, fid);
-            RAISEIF(bb->fsize[fid] != (size_t) -1, ex_fscanf1,
+            RAISEIF(bb->fsize[fid] != 0, ex_fscanf1,
                     "File referenced twice: `%s' (%d)", bb->basename, fid);
             RAISEIF(size < 0 || size == PTRDIFF_MAX || cksum < 0 || cksum > UINT_MAX, ex_fscanf1,
                     "Unreasonable size or checksum of a file: `%s' (%d)", bb->basename, fid);
-            bb->fsize[fid] = size;
+            /* plus one, because zero means not seen yet */
+            bb->fsize[fid] = size + 1;
             bb->fchecksum[fid] = cksum;
         }
         bb->foffset[0] = 0;
         for(i = 0; i < bb->Nfile; i ++) {
+            bb->fsize[i] --;
             RAISEIF(bb->fsize[i] > PTRDIFF_MAX - bb->foffset[i], ex_fscanf1,
                     "Unreasonable size of block `%s'", bb->basename);
             bb->foffset[i + 1] = bb->foffset[i] + bb->fsize[i];
-- 
2.43.0


From dd66c4d80073c8ef96c0553b3b7e3e386e6b0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 25/77] fix: removed attributes of a column in the old format
 do not come back

---
 src/bigfile.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 665aa89..9322ca2 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1556,7 +1556,13 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 {
     attrset->dirty = 0;
 
-    FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
+    /* superseded once the attributes have been saved in the current format */
+    FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "r", 0);
+    if(fattr != NULL) {
+        fclose(fattr);
+        return 0;
+    }
+    fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
     if(fattr == NULL) {
         RAISEIF(errno != ENOENT, ex_open,
             "Failed to open attributes of `%s' (%s)", basename, strerror(errno));
-- 
2.43.0


From db051b49159aad0992e329da0202192432cbd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 26/77] fix: count the recorded checksums once in a collective
 flush

The block broadcast after open, create, grow and flush gave every rank a copy
of the checksums recorded so far, and the next flush added up all the copies.
---
 src/bigfile-mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 4bdde18..4b4567c 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -378,6 +378,9 @@ big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm)
 
     if(rank != root) {
         _big_block_unpack(bb, buf);
+        /* flush sums up the checksums of all ranks; what is recorded already
+         * is kept by the root rank, to be counted once. */
+        memset(bb->fchecksum, 0, sizeof(bb->fchecksum[0]) * bb->Nfile);
     }
     free(buf);
     return 0;
-- 
2.43.0


From aef554009ce486f8bc1cbe71678a917af4738b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 27/77] fix: keep the checksums of all ranks in a collective
 grow

Growing replaced the blocks of the other ranks by the one of the root rank, and
what they had written since the last flush was missing in the checksums.
---
 src/bigfile-mpi.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 4b4567c..172ac10 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -210,6 +210,25 @@ _big_block_mpi_create(BigBlock * bb,
     return rt;
 }
 
+/* Move the checksums and the dirty flag pending on the other ranks to the root rank */
+static void
+big_block_mpi_collect(BigBlock * bb, MPI_Comm comm)
+{
+    int rank;
+    int i;
+    MPI_Comm_rank(comm, &rank);
+
+    unsigned int * checksum = calloc(bb->Nfile + 1, sizeof(checksum[0]));
+    MPI_Reduce(bb->fchecksum, checksum, bb->Nfile, MPI_UNSIGNED, MPI_SUM, 0, comm);
+    int dirty = 0;
+    MPI_Reduce(&bb->dirty, &dirty, 1, MPI_INT, MPI_LOR, 0, comm);
+    big_block_set_dirty(bb, dirty);
+    for(i = 0; i < bb->Nfile; i ++) {
+        bb->fchecksum[i] = checksum[i];
+    }
+    free(checksum);
+}
+
 int
 big_block_mpi_grow(BigBlock * bb,
     int Nfile_grow,
@@ -227,6 +246,8 @@ big_block_mpi_grow(BigBlock * bb,
 
     int oldNfile = bb->Nfile;
 
+    big_block_mpi_collect(bb, comm);
+
     if(rank == 0) {
         rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
     } else {
@@ -280,18 +301,10 @@ big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
     int rank;
     MPI_Comm_rank(comm, &rank);
 
-    unsigned int * checksum = alloca(sizeof(int) * block->Nfile);
-    MPI_Reduce(block->fchecksum, checksum, block->Nfile, MPI_UNSIGNED, MPI_SUM, 0, comm);
-    int dirty;
-    MPI_Reduce(&block->dirty, &dirty, 1, MPI_INT, MPI_LOR, 0, comm);
+    big_block_mpi_collect(block, comm);
     int rt;
     if(rank == 0) {
         /* only the root rank updates */
-        int i;
-        big_block_set_dirty(block, dirty);
-        for(i = 0; i < block->Nfile; i ++) {
-            block->fchecksum[i] = checksum[i];
-        }
         rt = big_block_flush(block);
     } else {
         rt = 0;
-- 
2.43.0


From 9613f40e7cf1b3697ab56f4b8dcd939c8ad63599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 28/77] fix: report and undo a failed collective create or grow
 as the serial one does

A physical file that could not be created left the grown size in the block, and
a failing fclose was not noticed.
---
 src/bigfile-mpi.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 172ac10..1ae15cf 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <alloca.h>
 #include <string.h>
+#include <errno.h>
 #include "bigfile-mpi.h"
 #include "bigfile-internal.h"
 #include "mp-mpiu.h"
@@ -198,14 +199,21 @@ _big_block_mpi_create(BigBlock * bb,
     int i;
     for(i = (size_t) bb->Nfile * rank / NTask; i < (size_t) bb->Nfile * (rank + 1) / NTask; i ++) {
         FILE * fp = _big_file_open_a_file(bb->basename, i, "w", 1);
-        if(fp == NULL) {
-            rt = -1;
-            break;
-        }
-        fclose(fp);
+        RAISEIF(fp == NULL,
+                ex_fileio,
+                NULL);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create physical file %d of block `%s' (%s)", i, bb->basename, strerror(errno));
+        continue;
+    ex_fileio:
+        rt = -1;
+        break;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        _big_block_close_internal(bb);
+    }
 
     return rt;
 }
@@ -265,14 +273,23 @@ big_block_mpi_grow(BigBlock * bb,
     int i;
     for(i = (size_t) Nfile_grow * rank / NTask; i < (size_t) Nfile_grow * (rank + 1) / NTask; i ++) {
         FILE * fp = _big_file_open_a_file(bb->basename, i + oldNfile, "w", 1);
-        if(fp == NULL) {
-            rt = -1;
-            break;
-        }
-        fclose(fp);
+        RAISEIF(fp == NULL,
+                ex_fileio,
+                NULL);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create physical file %d of block `%s' (%s)", i + oldNfile, bb->basename, strerror(errno));
+        continue;
+    ex_fileio:
+        rt = -1;
+        break;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        /* keep the description of what is there */
+        bb->Nfile = oldNfile;
+        bb->size = bb->foffset[oldNfile];
+    }
 
     return rt;
 }
-- 
2.43.0


From 86b9e17aa2975a0aef9be45ab733f764d70aec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 29/77] fix: collective open and create of the block of
 attributes of a file

The trailing slash kept the name `.' from being recognized, and the header of the
block was asked for.
---
 src/bigfile-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 1ae15cf..abbc494 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -90,7 +90,7 @@ int big_file_mpi_open_block(BigFile * bf, BigBlock * block, const char * blockna
     if(comm == MPI_COMM_NULL) return 0;
     if(!bf || !bf->basename || !blockname) return 1;
     char * basename = alloca(strlen(bf->basename) + strlen(blockname) + 128);
-    sprintf(basename, "%s/%s/", bf->basename, blockname);
+    sprintf(basename, "%s/%s", bf->basename, blockname);
     return _big_block_mpi_open(block, basename, comm);
 }
 
@@ -138,7 +138,7 @@ _big_file_mpi_create_block(BigFile * bf,
     BCAST_AND_RAISEIF(rt, comm);
 
     char * basename = alloca(strlen(bf->basename) + strlen(blockname) + 128);
-    sprintf(basename, "%s/%s/", bf->basename, blockname);
+    sprintf(basename, "%s/%s", bf->basename, blockname);
     return _big_block_mpi_create(block, basename, dtype, nmemb, Nfile, fsize, comm);
 }
 
-- 
2.43.0


From 7730c1d84c1d154e11637d4311a2b47881a0442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 30/77] fix: collective calls of ranks outside of the
 communicator do nothing

Most of them returned at once, but close freed a block that was never opened.
---
 src/bigfile-mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index abbc494..f7c60b5 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -303,8 +303,6 @@ big_block_mpi_grow_simple(BigBlock * bb, int Nfile_grow, size_t size_grow, MPI_C
         fsize[i] = size_grow * (i + 1) / Nfile_grow
                  - size_grow * (i) / Nfile_grow;
     }
-    int rank;
-    MPI_Comm_rank(comm, &rank);
 
     return big_block_mpi_grow(bb, Nfile_grow, fsize, comm);
 }
@@ -337,6 +335,7 @@ big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
 
 }
 int big_block_mpi_close(BigBlock * block, MPI_Comm comm) {
+    if(comm == MPI_COMM_NULL) return 0;
 
     int rt = big_block_mpi_flush(block, comm);
     _big_block_close_internal(block);
@@ -584,6 +583,7 @@ _aggregated(
 int
 big_block_mpi_write(BigBlock * block, BigBlockPtr * ptr, BigArray * array, int concurrency, MPI_Comm comm)
 {
+    if(comm == MPI_COMM_NULL) return 0;
     int rt = _throttle_action(comm, concurrency, block, ptr, array, big_block_write);
     return rt;
 }
@@ -591,6 +591,7 @@ big_block_mpi_write(BigBlock * block, BigBlockPtr * ptr, BigArray * array, int c
 int
 big_block_mpi_read(BigBlock * block, BigBlockPtr * ptr, BigArray * array, int concurrency, MPI_Comm comm)
 {
+    if(comm == MPI_COMM_NULL) return 0;
     int rt = _throttle_action(comm, concurrency, block, ptr, array, big_block_read);
     return rt;
 }
-- 
2.43.0


From cb636e2f20b1466f09490e0be34884238b580d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 31/77] fix: count the rows of a collective transfer from the
 size of the array

As in the serial calls. The first dimension was taken, which for a flat array of a
column wider than one made the transfer run beyond the end of the array.
---
 src/bigfile-mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index f7c60b5..5672ea1 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -445,7 +445,7 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
     }
 
     size_t avgsegsize;
-    size_t localsize = array->dims[0];
+    size_t localsize = array->size / (block->nmemb ? block->nmemb : 1);
     size_t myoffset;
     size_t * sizes = malloc(sizeof(sizes[0]) * NTask);
 
-- 
2.43.0


From 1e308c49f033ff28c7806634a285f9cf3af6ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 32/77] fix: refuse a collective transfer that does not fit
 before any of it is done

Ranks whose part fitted wrote it, or the failure to find the place was ignored.
---
 src/bigfile-mpi.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 5672ea1..343a24b 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -459,11 +459,23 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
     /* no segment shall exceed the memory bound set by maxsegsize, since it will be collected to a single rank */
     if(avgsegsize > _BigFileAggThreshold) avgsegsize = _BigFileAggThreshold;
 
+    int rt = 0;
+    BigBlockPtr end[1];
+    memcpy(end, ptr, sizeof(BigBlockPtr));
+
+    /* refused as a whole if it does not fit */
+    if(totalsize > 0) {
+        rt = big_block_seek_rel(block, end, totalsize);
+    }
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        free(sizes);
+        return rt;
+    }
+
     MPIU_Segmenter_init(seggrp, sizes, NULL, avgsegsize, concurrency, comm);
 
     free(sizes);
 
-    int rt = 0;
     int segment;
 
     for(segment = seggrp->segment_start;
@@ -488,7 +500,7 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 
     if(0 == (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
         /* no errors*/
-        big_block_seek_rel(block, ptr, totalsize);
+        memcpy(ptr, end, sizeof(BigBlockPtr));
     }
 
     MPIU_Segmenter_destroy(seggrp);
-- 
2.43.0


From e3d1bfd5efd0bea82fed1b62ad20989cbbacfa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 33/77] fix: report impossible conversions in collective
 transfers

The result of the conversion was ignored, and rows that were never filled in were
written or returned.
---
 src/bigfile-mpi.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 343a24b..e89c90a 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -568,7 +568,12 @@ _aggregated(
     }
 
     if(action == big_block_write) {
-        _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        if(localsize > 0) {
+            e = _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        }
+        if(0 != (e = big_file_mpi_broadcast_anyerror(e, comm))) {
+            goto ex_action;
+        }
         MPI_Gatherv(lbuf, recvcounts[rank], mpidtype,
                     gbuf, recvcounts, recvdispls, mpidtype, root, comm);
     }
@@ -576,12 +581,18 @@ _aggregated(
         big_block_seek_rel(block, ptr1, offset);
         e = action(block, ptr1, garray);
     }
+    if(0 != (e = big_file_mpi_broadcast_anyerror(e, comm))) {
+        goto ex_action;
+    }
     if(action == big_block_read) {
         MPI_Scatterv(gbuf, recvcounts, recvdispls, mpidtype,
                     lbuf, localsize, mpidtype, root, comm);
-        _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        if(localsize > 0) {
+            e = _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        }
+        e = big_file_mpi_broadcast_anyerror(e, comm);
     }
-
+ex_action:
     if(rank == root) {
         free(gbuf);
     }
@@ -589,7 +600,7 @@ _aggregated(
 
     MPI_Type_free(&mpidtype);
 
-    return big_file_mpi_broadcast_anyerror(e, comm);
+    return e;
 }
 
 int
-- 
2.43.0


From eb601d284d301325c883fdfbb04c85b46ebf8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 34/77] fix: index -1 and slices that stop before they start

column[-1] raised an IndexError, column[5:4] gave all rows from 5 on, and other
empty slices raised a ValueError.
---
 bigfile/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 9326613..d225e38 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -31,14 +31,15 @@ def _enhance_slicefunc(getitem, returns_none):
         elif index is Ellipsis:
             return getitem(self, slice(None, None, None), *args)
         elif numpy.isscalar(index):
-            index = slice(index, index + 1)
+            # -1 + 1 is 0, not the end.
+            index = slice(index, index + 1 if index != -1 else None)
             if returns_none:
                return getitem(self, index, *args)
             else:
                return getitem(self, index, *args)[0]
         else:
             raise TypeError("Expecting a slice or a scalar, got a `%s`" %
-                    str(type(sl)))
+                    str(type(index)))
     return enhanced
 
 def _enhance_getslice(getitem):
@@ -70,7 +71,7 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
-            return self.read(start, end-start)
+            return self.read(start, max(end-start, 0))
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
 
@@ -364,6 +365,7 @@ class Dataset(pyxbigfile.Dataset):
                     str(type(sl)))
         start, end, stop = sl.indices(self.size)
         assert stop == 1
+        end = max(start, end)
         result = numpy.empty(end - start, dtype=self.dtype)
         return self.read(start, end - start, result)
 
@@ -374,6 +376,7 @@ class Dataset(pyxbigfile.Dataset):
                     str(type(sl)))
         start, end, stop = sl.indices(self.size)
         assert stop == 1
+        end = max(start, end)
         assert value.dtype == self.dtype
         assert len(value) == end - start
         return self.write(start, value)
-- 
2.43.0


From 5d0d074511d1b30b3bfa19e332bb336c89c4555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 35/77] fix: assigning to a slice of a column changes no other
 rows

All rows of the value were written from the start of the slice on, however many
the slice has.
---
 bigfile/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index d225e38..7dfc86e 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -83,6 +83,8 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
+            if numpy.size(value) != max(end - start, 0) * int(numpy.prod(self.dtype.shape)):
+                raise ValueError('the value does not match the slice')
             self.write(start, value)
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
-- 
2.43.0


From 2ef135381cb79a5ab919abace69fa00d3c84310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 36/77] fix: create_from_array with a memory limit of less than
 1024 rows

The number of rows per chunk was rounded down to zero.
---
 bigfile/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 7dfc86e..efae1f1 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -184,7 +184,9 @@ class File(FileBase):
 
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        itemlimit = max(memorylimit // dtype.itemsize, 1)
+        if itemlimit > 1024:
+            itemlimit = itemlimit // 1024 * 1024
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
@@ -314,7 +316,9 @@ class FileMPI(FileBase):
 
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        itemlimit = max(memorylimit // dtype.itemsize, 1)
+        if itemlimit > 1024:
+            itemlimit = itemlimit // 1024 * 1024
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
-- 
2.43.0


From 14249c23648a2486ffe0d42c85813a1c8f153378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 37/77] fix: raise an error when the blocks of a file cannot be
 listed

The list was not even initialized then.
---
 bigfile/pyxbigfile.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 62b27fd..8a0a69c 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -186,7 +186,9 @@ cdef class FileLowLevelAPI:
         cdef char ** list
         cdef int N
         with nogil:
-            big_file_list(&self.bf, &list, &N)
+            rt = big_file_list(&self.bf, &list, &N)
+        if rt != 0:
+            raise Error()
         try:
             return sorted([str(list[i].decode()) for i in range(N)])
         finally:
-- 
2.43.0


From 5d0726185a839ef5cbc4243e9251558b1886c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 38/77] fix: raise an error when an unpickled file cannot be
 opened

---
 bigfile/pyxbigfile.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 8a0a69c..51de4cf 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -172,11 +172,13 @@ cdef class FileLowLevelAPI:
         filename = filename.encode()
         cdef char * filenameptr = filename
 
-        self._deallocated = deallocated
-
         if not deallocated:
             with nogil:
                 rt = big_file_open(&self.bf, filenameptr)
+            if rt != 0:
+                raise Error()
+
+        self._deallocated = deallocated
 
     property basename:
         def __get__(self):
-- 
2.43.0


From f01ee9175181f5e9c71fe640b25e59dc6a2d1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 39/77] fix: write strided arrays of records to a dataset, and
 check the output array of read

The buffer of the array was used as if the records were next to each other.
---
 bigfile/pyxbigfile.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 51de4cf..47012ec 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -637,6 +637,8 @@ cdef class Dataset:
     def read(self, numpy.intp_t start, numpy.intp_t length, numpy.ndarray out=None):
         if out is None:
             out = numpy.empty(length, self.dtype)
+        elif out.ndim != 1 or out.shape[0] != length or out.dtype != self.dtype or not out.flags.c_contiguous:
+            raise ValueError("output array mismatches with the request")
         with nogil:
             rt = big_file_read_records(&self.file.bf, &self.rtype, start, length, out.data)
         if rt != 0:
@@ -672,6 +674,8 @@ cdef class Dataset:
     def write(self, numpy.intp_t start, numpy.ndarray buf):
         assert buf.dtype == self.dtype
         assert buf.ndim == 1
+        # the records are written from a plain buffer
+        buf = numpy.ascontiguousarray(buf)
         with nogil:
             rt = big_file_write_records(&self.file.bf, &self.rtype, start, buf.shape[0], buf.data)
         if rt != 0:
-- 
2.43.0


From a07d79d73d6fbeb988facfc28cba256f6248bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 40/77] fix: count the recorded checksums once when an MPI
 column is flushed

Every rank reads the recorded checksums when it opens the column, and gets them
again after a flush, and the next flush added up all the copies.
---
 bigfile/__init__.py    | 2 ++
 bigfile/pyxbigfile.pyx | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index efae1f1..c32d780 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -228,6 +228,8 @@ class ColumnMPI(Column):
             error = self.comm.allgather(error)
         if any(error):
             raise RuntimeException("open failed on other rank(s)")
+        if self.comm.rank != 0:
+            self._MPI_forget_checksum()
         return r
 
     def close(self):
diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 47012ec..67e98fd 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -532,10 +532,17 @@ cdef class ColumnLowLevelAPI:
         if comm.rank != root:
             _big_block_close_internal(&self.bb)
             _big_block_unpack(&self.bb, container.data)
+            self._MPI_forget_checksum()
 
         if comm.rank == root:
             free(buf)
 
+    def _MPI_forget_checksum(self):
+        # flush sums up the checksums of all ranks; what is recorded already
+        # is kept by one rank, to be counted once.
+        for i in range(self.bb.Nfile):
+            self.bb.fchecksum[i] = 0
+
     def _MPI_flush(self):
         comm = self.comm
         cdef unsigned int Nfile = self.bb.Nfile
-- 
2.43.0


From 07534cd0176d31d15473c565074e2797254c2f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 41/77] fix: raise an error on all ranks when an MPI column
 cannot be created

The first rank left the collective call, and the others waited for it.
---
 bigfile/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index c32d780..cd03a8c 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -206,9 +206,16 @@ class ColumnMPI(Column):
         if not check_unique(blockname, self.comm):
             raise BigFileError("blockname is inconsistent between ranks")
 
+        error = None
         if self.comm.rank == 0:
-            super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
-            super(ColumnMPI, self).close()
+            try:
+                super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
+                super(ColumnMPI, self).close()
+            except Exception as e:
+                error = e
+        error = self.comm.bcast(error)
+        if error is not None:
+            raise error
         return self.open(f, blockname)
 
     @_enhance_getslice
-- 
2.43.0


From 8ce57a9c3cef9acf7fba27862d0de935206036a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 42/77] fix: error of the other ranks when an MPI column cannot
 be opened on one

The name of the exception did not exist.
---
 bigfile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index cd03a8c..9f4fa2a 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -234,7 +234,7 @@ class ColumnMPI(Column):
         finally:
             error = self.comm.allgather(error)
         if any(error):
-            raise RuntimeException("open failed on other rank(s)")
+            raise Error("open failed on other rank(s)")
         if self.comm.rank != 0:
             self._MPI_forget_checksum()
         return r
-- 
2.43.0


From 02ee630a5f45a7e397d67f95faafd72a12037bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 43/77] fix: raise an error on all ranks when one fails to
 write in create_from_array

The others waited for the failing rank to open the column.
---
 bigfile/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 9f4fa2a..686607c 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -330,8 +330,15 @@ class FileMPI(FileBase):
             itemlimit = itemlimit // 1024 * 1024
 
         with self.create(blockname, dtype, size, Nfile) as b:
-            for i in range(0, len(array), itemlimit):
-                b.write(offset + i, numpy.array(array[i:i+itemlimit]))
+            error = None
+            try:
+                for i in range(0, len(array), itemlimit):
+                    b.write(offset + i, numpy.array(array[i:i+itemlimit]))
+            except Exception as e:
+                error = e
+            for error in self.comm.allgather(error):
+                if error is not None:
+                    raise error
 
         return self.open(blockname)
 
-- 
2.43.0


From 46ab4607bf321424dc9d19ad25f2cd0e81a3c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 44/77] fix: collective record calls of ranks outside of the
 communicator do nothing

---
 src/bigfile-mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index e89c90a..30ca82c 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -629,6 +629,7 @@ big_file_mpi_create_records(BigFile * bf,
     MPI_Comm comm)
 {
     int i;
+    if(comm == MPI_COMM_NULL) return 0;
     for(i = 0; i < rtype->nfield; i ++) {
         BigBlock block[1];
         if (0 == strcmp(mode, "w+")) {
@@ -678,6 +679,7 @@ big_file_mpi_write_records(BigFile * bf,
     MPI_Comm comm)
 {
     int i;
+    if(comm == MPI_COMM_NULL) return 0;
     for(i = 0; i < rtype->nfield; i ++) {
         BigArray array[1];
         BigBlock block[1];
@@ -725,6 +727,7 @@ big_file_mpi_read_records(BigFile * bf,
     MPI_Comm comm)
 {
     int i;
+    if(comm == MPI_COMM_NULL) return 0;
     for(i = 0; i < rtype->nfield; i ++) {
         BigArray array[1];
         BigBlock block[1];
-- 
2.43.0


From e0718642f75fcd63554a3641f5a3bce19459b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 45/77] fix: accept any integer type as an index, and refuse
 all that are out of range

---
 bigfile/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 686607c..34cd7bd 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -7,6 +7,7 @@ from .pyxbigfile import set_buffer_size
 from . import pyxbigfile
 
 import os
+import operator
 import numpy
 from functools import wraps
 
@@ -31,6 +32,9 @@ def _enhance_slicefunc(getitem, returns_none):
         elif index is Ellipsis:
             return getitem(self, slice(None, None, None), *args)
         elif numpy.isscalar(index):
+            index = operator.index(index)
+            if not -self.size <= index < self.size:
+                raise IndexError("index %d is out of range" % index)
             # -1 + 1 is 0, not the end.
             index = slice(index, index + 1 if index != -1 else None)
             if returns_none:
-- 
2.43.0


From 478c40340e740001384bc564fbfbd9fb1d403535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 46/77] fix: empty strings in Python attributes are read back
 as empty

---
 bigfile/pyxbigfile.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 67e98fd..99a668b 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -236,7 +236,7 @@ cdef class AttrSet:
             attr[0].nmemb)):
             raise Error()
         if attr[0].dtype[1] == 'S':
-            return [i.tostring().decode() for i in result]
+            return [i.decode() for i in result]
         if attr[0].dtype[1] == 'a':
             return result.tostring().decode()
         return result
@@ -256,7 +256,7 @@ cdef class AttrSet:
 
         if isstr(value):
             dtype = b'a1'
-            value = numpy.array(str(value).encode()).ravel().view(dtype='S1').ravel()
+            value = numpy.frombuffer(str(value).encode(), dtype='S1')
         else:
             value = numpy.array(value).ravel()
 
-- 
2.43.0


From b9ff2056bee6b3740cb6036ef71371f45fda4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 47/77] fix: refuse to append rows that do not match the
 column, before growing it

---
 bigfile/pyxbigfile.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 99a668b..44ecac1 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -448,6 +448,8 @@ cdef class ColumnLowLevelAPI:
             raise ValueError("Cannot create negative number of files.")
         if Nfile == 0 and size != 0:
             raise ValueError("Cannot create zero files for non-zero number of items.")
+        if buf.size != size * self.bb.nmemb:
+            raise ValueError("The rows do not match the column.")
 
         fsize = numpy.empty(dtype='intp', shape=Nfile)
         fsize[:] = (numpy.arange(Nfile) + 1) * size // Nfile \
-- 
2.43.0


From 309ed92af33fe4e7a206b615c3701efeed01a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 48/77] fix: the shape of a dataset follows an append

---
 bigfile/pyxbigfile.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 44ecac1..60e5e86 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -672,6 +672,7 @@ cdef class Dataset:
         if rt != 0:
             raise Error()
         self.size = self.size + size
+        self.shape = (self.size, )
 
     def append(self, numpy.ndarray buf, numpy.intp_t Nfile=1):
         assert buf.dtype == self.dtype
-- 
2.43.0


From a056440c693293978798ab6825a2a5dc132c2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 49/77] fix: refuse to create a column of negative size

---
 bigfile/pyxbigfile.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 60e5e86..ab5f3cd 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -384,6 +384,8 @@ cdef class ColumnLowLevelAPI:
         else:
             if Nfile < 0:
                 raise ValueError("Cannot create negative number of files.")
+            if size < 0:
+                raise ValueError("Cannot create negative number of items.")
             if Nfile == 0 and size != 0:
                 raise ValueError("Cannot create zero files for non-zero number of items.")
             dtype = numpy.dtype(dtype)
-- 
2.43.0


From 70f4a6bc964904d69a3af12f237a47dbcd049343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 50/77] fix: raise an error on all ranks when the list of
 blocks cannot be read

---
 bigfile/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 34cd7bd..f24f4d5 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -275,11 +275,16 @@ class FileMPI(FileBase):
 
     def refresh(self):
         """ Refresh the list of blocks to the disk, collectively """
+        blocks, error = None, None
         if self.comm.rank == 0:
-            self._blocks = self.list_blocks()
-        else:
-            self._blocks = None
-        self._blocks = self.comm.bcast(self._blocks)
+            try:
+                blocks = self.list_blocks()
+            except Exception as e:
+                error = e
+        blocks, error = self.comm.bcast((blocks, error))
+        if error is not None:
+            raise error
+        self._blocks = blocks
 
     def open(self, blockname):
         block = ColumnMPI(self.comm)
-- 
2.43.0


From 94652c9405ec8ad425bedd0a4fff997c0eae317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 51/77] fix: copy columns with rows that are larger than the
 buffer

---
 utils/bigfile-copy-mpi.c | 1 +
 utils/bigfile-copy.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 38451ec..2062d77 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -119,6 +119,7 @@ int main(int argc, char * argv[]) {
 
 void server() {
     int64_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+    if(chunksize == 0) chunksize = 1;   /* at least one row at a time */
     int64_t offset;
     int64_t work[2];
     for(offset = 0; offset < bb.size; ) {
diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index f87efab..809ec00 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -90,6 +90,7 @@ int main(int argc, char * argv[]) {
     if(bb.nmemb > 0 && bb.size > 0) {
         /* copy data */
         size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+        if(chunksize == 0) chunksize = 1;   /* at least one row at a time */
         BigBlockPtr ptrnew;
         ptrdiff_t offset;
         BigArray array;
-- 
2.43.0


From a1cdd129ad9309222bb34e7c0e3303bd657fb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 52/77] fix: report a number of files that cannot hold the copy

---
 utils/bigfile-copy-mpi.c | 4 ++++
 utils/bigfile-copy.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 2062d77..8653294 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -74,6 +74,10 @@ int main(int argc, char * argv[]) {
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
+    if(Nfile < 0 || (Nfile == 0 && bb.size > 0)) {
+        fprintf(stderr, "cannot copy to %d files\n", Nfile);
+        exit(1);
+    }
     if(newfilepath == NULL) {
         newfilepath = argv[1];
     }
diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index 809ec00..9166a76 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -62,6 +62,10 @@ int main(int argc, char * argv[]) {
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
+    if(Nfile < 0 || (Nfile == 0 && bb.size > 0)) {
+        fprintf(stderr, "cannot copy to %d files\n", Nfile);
+        exit(1);
+    }
     /* avoid Nfile == 0 */
     size_t newsize[Nfile + 10];
     int i;
-- 
2.43.0


From 3663e6a684767e8eb727b0458e7bdf8c1b7d5c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 53/77] fix: refuse to copy a column onto itself, which
 destroyed it

---
 utils/bigfile-copy-mpi.c | 19 +++++++++++++++++++
 utils/bigfile-copy.c     | 16 ++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 8653294..19cbc0e 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include "bigfile-mpi.h"
 
 void usage() {
@@ -29,6 +30,17 @@ char * newfilepath = NULL;
 void slave(void);
 void server(void);
 
+/* whether the name in the file refers to the column itself */
+static int is_same_block(const char * basename, const char * file, const char * name) {
+    struct stat st1, st2;
+    char * path = malloc(strlen(file) + strlen(name) + 2);
+    sprintf(path, "%s/%s", file, name);
+    int r = 0 == stat(basename, &st1) && 0 == stat(path, &st2)
+        && st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino;
+    free(path);
+    return r;
+}
+
 int main(int argc, char * argv[]) {
 
     MPI_Init(&argc, &argv);
@@ -81,6 +93,13 @@ int main(int argc, char * argv[]) {
     if(newfilepath == NULL) {
         newfilepath = argv[1];
     }
+    /* creating the new block removes what is there; hence all ranks ask first */
+    int same = is_same_block(bb.basename, newfilepath, argv[3]);
+    MPI_Allreduce(MPI_IN_PLACE, &same, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+    if(same) {
+        fprintf(stderr, "cannot copy a block to itself: %s\n", argv[3]);
+        exit(1);
+    }
     if(0 != big_file_mpi_create(&bfnew, newfilepath, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index 9166a76..0daa092 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include "bigfile.h"
 
 void usage() {
@@ -11,6 +12,17 @@ void usage() {
     exit(1);
 
 }
+/* whether the name in the file refers to the column itself */
+static int is_same_block(const char * basename, const char * file, const char * name) {
+    struct stat st1, st2;
+    char * path = malloc(strlen(file) + strlen(name) + 2);
+    sprintf(path, "%s/%s", file, name);
+    int r = 0 == stat(basename, &st1) && 0 == stat(path, &st2)
+        && st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino;
+    free(path);
+    return r;
+}
+
 int main(int argc, char * argv[]) {
     BigFile bf = {0};
     BigFile bfnew = {0};
@@ -66,6 +78,10 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "cannot copy to %d files\n", Nfile);
         exit(1);
     }
+    if(is_same_block(bb.basename, newfile, argv[3])) {
+        fprintf(stderr, "cannot copy a block to itself: %s\n", argv[3]);
+        exit(1);
+    }
     /* avoid Nfile == 0 */
     size_t newsize[Nfile + 10];
     int i;
-- 
2.43.0


From 96eaebf73368984d4dce301c0cd0600ddd56064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 54/77] fix: copy-mpi reports errors, ends with every rank told
 to, and works on one rank

The server stopped listening while slaves were still to report, ignored what they
reported, and waited for ever when there were no slaves; errors were lost.
---
 utils/bigfile-copy-mpi.c | 99 +++++++++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 38 deletions(-)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 19cbc0e..db34c8e 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -28,7 +28,7 @@ size_t buffersize = 256 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
 void slave(void);
-void server(void);
+int server(void);
 
 /* whether the name in the file refers to the column itself */
 static int is_same_block(const char * basename, const char * file, const char * name) {
@@ -122,14 +122,20 @@ int main(int argc, char * argv[]) {
         big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
     }
 
+    int error = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
-            server();
+            error = server();
         } else {
             slave();
         }
     }
+    /* all ranks fail if one of them did */
+    MPI_Bcast(&error, 1, MPI_INT, 0, MPI_COMM_WORLD);
+    if(error) {
+        exit(1);
+    }
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to close new: %s\n", big_file_get_error_message());
         exit(1);
@@ -137,21 +143,57 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
+    MPI_Finalize();
     return 0;
 }
 
-void server() {
+static int copy_rows(int64_t offset, int64_t chunksize) {
+    BigArray array;
+    BigBlockPtr ptrnew;
+
+    if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
+        fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
+        return -1;
+    }
+    if(0 != big_block_seek(&bbnew, &ptrnew, offset)) {
+        fprintf(stderr, "failed to seek new: %s\n", big_file_get_error_message());
+        free(array.data);
+        return -1;
+    }
+
+    if(0 != big_block_write(&bbnew, &ptrnew, &array)) {
+        fprintf(stderr, "failed to write new: %s\n", big_file_get_error_message());
+        free(array.data);
+        return -1;
+    }
+
+    free(array.data);
+    return 0;
+}
+
+/* hands out the work; returns nonzero if any of it failed */
+int server() {
     int64_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
     if(chunksize == 0) chunksize = 1;   /* at least one row at a time */
-    int64_t offset;
-    int64_t work[2];
-    for(offset = 0; offset < bb.size; ) {
+    int64_t offset = 0;
+    int64_t work[2] = {0, 0};
+    int error = 0;
+    int nslaves = NTask - 1;
+    while(nslaves > 0 || (NTask == 1 && offset < bb.size && !error)) {
         MPI_Status status;
         int result = 0;
-        MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
-                &status);
-        if(status.MPI_TAG == ERROR_TAG) {
-            break;
+        if(NTask > 1) {
+            MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
+                    &status);
+            if(status.MPI_TAG == ERROR_TAG) {
+                error = 1;
+            }
+            if(error || offset >= bb.size) {
+                /* nothing more to do for this one */
+                MPI_Send(work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, DIE_TAG, MPI_COMM_WORLD);
+                nslaves --;
+                continue;
+            }
         }
 
         /* never read beyond my end (read_simple caps at EOF) */
@@ -160,19 +202,20 @@ void server() {
         }
         work[0] = offset;
         work[1] = chunksize;
-        MPI_Send(work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
+        if(NTask > 1) {
+            MPI_Send(work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
+        } else {
+            if(0 != copy_rows(offset, chunksize)) {
+                error = 1;
+            }
+        }
 
         offset += chunksize;
         if(verbose) {
             fprintf(stderr, "%ld / %td done (%0.4g%%)\r", offset, bb.size, (100. / bb.size) * offset);
         }
     }
-    int i;
-    for(i = 1; i < NTask; i ++) {
-        int64_t work[2];
-        MPI_Send(work, 1, MPI_TYPE_WORK, i, DIE_TAG, MPI_COMM_WORLD);
-    }
-
+    return error;
 }
 void slave() {
     int result = 0;
@@ -185,31 +228,11 @@ void slave() {
         if(status.MPI_TAG == DIE_TAG) {
             break;
         }
-        int64_t offset = work[0];
-        int64_t chunksize = work[1];
-        BigArray array;
-        BigBlockPtr ptrnew;
-
-        if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
-            fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
-            result = -1;
-            goto bad;
-        }
-        if(0 != big_block_seek(&bbnew, &ptrnew, offset)) {
-            fprintf(stderr, "failed to seek new: %s\n", big_file_get_error_message());
+        if(0 != copy_rows(work[0], work[1])) {
             result = -1;
-            free(array.data);
             goto bad;
         }
 
-        if(0 != big_block_write(&bbnew, &ptrnew, &array)) {
-            fprintf(stderr, "failed to write new: %s\n", big_file_get_error_message());
-            result = -1;
-            free(array.data);
-            goto bad;
-        }
-
-        free(array.data);
         MPI_Send(&result, 1, MPI_INT, 0, DONE_TAG, MPI_COMM_WORLD);
         continue;
     bad:
-- 
2.43.0


From 89c320595b28b816fe11374951437ef8581fe8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 55/77] fix: sample no more rows than a chunk has

---
 utils/bigfile-sample-mpi.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/bigfile-sample-mpi.c b/utils/bigfile-sample-mpi.c
index 3dcf31b..313dae5 100644
--- a/utils/bigfile-sample-mpi.c
+++ b/utils/bigfile-sample-mpi.c
@@ -150,6 +150,10 @@ static size_t filesize() {
         } else {
             work.nsel = gsl_ran_poisson(rng, chunksize * ratio);
         }
+        /* no more than there are */
+        if(work.nsel > chunksize) {
+            work.nsel = chunksize;
+        }
 
         offset += chunksize;
         offsetnew += work.nsel;
@@ -186,6 +190,10 @@ void server() {
         } else {
             work.nsel = gsl_ran_poisson(rng, chunksize * ratio);
         }
+        /* no more than there are */
+        if(work.nsel > chunksize) {
+            work.nsel = chunksize;
+        }
         MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
 
         offset += chunksize;
-- 
2.43.0


From a762bbff6d472e47a025213aaec748ea61a737c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 56/77] fix: refuse to sample a column into itself, or into
 files that cannot hold it

---
 utils/bigfile-sample-mpi.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/utils/bigfile-sample-mpi.c b/utils/bigfile-sample-mpi.c
index 313dae5..6b04ff9 100644
--- a/utils/bigfile-sample-mpi.c
+++ b/utils/bigfile-sample-mpi.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include <math.h>
 #include "bigfile-mpi.h"
 #include <gsl/gsl_rng.h>
@@ -43,6 +44,17 @@ struct work {
 
 static size_t filesize();
 
+/* whether the name in the file refers to the column itself */
+static int is_same_block(const char * basename, const char * file, const char * name) {
+    struct stat st1, st2;
+    char * path = malloc(strlen(file) + strlen(name) + 2);
+    sprintf(path, "%s/%s", file, name);
+    int r = 0 == stat(basename, &st1) && 0 == stat(path, &st2)
+        && st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino;
+    free(path);
+    return r;
+}
+
 int main(int argc, char * argv[]) {
 
     MPI_Init(&argc, &argv);
@@ -91,10 +103,21 @@ int main(int argc, char * argv[]) {
     if(newfilepath == NULL) {
         newfilepath = argv[1];
     }
+    /* creating the new block removes what is there; hence all ranks ask first */
+    int same = is_same_block(bb.basename, newfilepath, argv[3]);
+    MPI_Allreduce(MPI_IN_PLACE, &same, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+    if(same) {
+        fprintf(stderr, "cannot sample a block to itself: %s\n", argv[3]);
+        exit(1);
+    }
     if(0 != big_file_mpi_create(&bfnew, newfilepath, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
     }
+    if(Nfile < 0 || (Nfile == 0 && bb.size > 0)) {
+        fprintf(stderr, "cannot copy to %d files\n", Nfile);
+        exit(1);
+    }
     size_t newsize = filesize();
     if(0 != big_file_mpi_create_block(&bfnew, &bbnew, argv[3], bb.dtype, bb.nmemb, Nfile, newsize, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to create temp: %s\n", big_file_get_error_message());
-- 
2.43.0


From 923996728a90234e31ca368c189c29a52a7459cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 57/77] fix: sample-mpi reports errors, ends with every rank
 told to, and works on one rank

As in copy-mpi.
---
 utils/bigfile-sample-mpi.c | 163 +++++++++++++++++++++----------------
 1 file changed, 93 insertions(+), 70 deletions(-)

diff --git a/utils/bigfile-sample-mpi.c b/utils/bigfile-sample-mpi.c
index 6b04ff9..d025529 100644
--- a/utils/bigfile-sample-mpi.c
+++ b/utils/bigfile-sample-mpi.c
@@ -31,7 +31,7 @@ size_t CHUNKSIZE = 1 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
 void slave(void);
-void server(void);
+int server(void);
 
 double ratio = 1.0;
 struct work {
@@ -133,14 +133,20 @@ int main(int argc, char * argv[]) {
         big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
     }
 
+    int error = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
-            server();
+            error = server();
         } else {
             slave();
         }
     }
+    /* all ranks fail if one of them did */
+    MPI_Bcast(&error, 1, MPI_INT, 0, MPI_COMM_WORLD);
+    if(error) {
+        exit(1);
+    }
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to close new: %s\n", big_file_get_error_message());
         exit(1);
@@ -148,6 +154,7 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
+    MPI_Finalize();
     return 0;
 }
 static size_t filesize() {
@@ -183,20 +190,88 @@ static size_t filesize() {
     }
     return offsetnew;
 }
-void server() {
+static int sample_rows(gsl_rng * rng, struct work * work) {
+    gsl_rng_set(rng, work->seed);
+
+    int64_t chunksize = work->chunksize;
+    int64_t nsel = work->nsel;
+    BigArray array;
+    BigBlockPtr ptrnew;
+    BigArray arraynew;
+
+    size_t dims[2];
+    void * buffer = malloc(dtype_itemsize(bb.dtype) * bb.nmemb * nsel);
+    dims[0] = nsel;
+    dims[1] = bb.nmemb;
+    big_array_init(&arraynew, buffer, bb.dtype, 2, dims, NULL);
+
+    ptrdiff_t i;
+    size_t step = dtype_itemsize(bb.dtype) * bb.nmemb;
+    size_t leftover = chunksize;
+    char * p = buffer;
+    char * q;
+    if(0 != big_block_read_simple(&bb, work->offset, chunksize, &array, NULL)) {
+        fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
+        free(buffer);
+        return -1;
+    }
+    q = array.data;
+
+    for(i = 0; i < chunksize; i ++) {
+        int64_t r = gsl_rng_uniform_int(rng, leftover);
+        if(r < nsel) {
+            memcpy(p, q, step);
+            p += step;
+            nsel --;
+        }
+        if(nsel == 0) break;
+        leftover --;
+        q += step;
+    }
+    if(nsel != 0) abort();
+    free(array.data);
+    if(0 != big_block_seek(&bbnew, &ptrnew, work->offsetnew)) {
+        fprintf(stderr, "failed to seek new: %s\n", big_file_get_error_message());
+        free(buffer);
+        return -1;
+    }
+
+    if(0 != big_block_write(&bbnew, &ptrnew, &arraynew)) {
+        fprintf(stderr, "failed to write new: %s\n", big_file_get_error_message());
+        free(buffer);
+        return -1;
+    }
+
+    free(buffer);
+    return 0;
+}
+
+/* hands out the work; returns nonzero if any of it failed */
+int server() {
     int64_t offset = 0;
     int64_t offsetnew = 0;
-    struct work work;
+    struct work work = {0};
+    int error = 0;
+    int nslaves = NTask - 1;
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
+    gsl_rng * myrng = gsl_rng_alloc(gsl_rng_mt19937);
     gsl_rng_set(rng, 1984);
-    for(offset = 0; offset < bb.size; ) {
+    while(nslaves > 0 || (NTask == 1 && offset < bb.size && !error)) {
         int64_t chunksize = CHUNKSIZE;
         MPI_Status status;
         int result = 0;
-        MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
-                &status);
-        if(status.MPI_TAG == ERROR_TAG) {
-            break;
+        if(NTask > 1) {
+            MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
+                    &status);
+            if(status.MPI_TAG == ERROR_TAG) {
+                error = 1;
+            }
+            if(error || offset >= bb.size) {
+                /* nothing more to do for this one */
+                MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, DIE_TAG, MPI_COMM_WORLD);
+                nslaves --;
+                continue;
+            }
         }
 
         /* never read beyond my end (read_simple caps at EOF) */
@@ -217,7 +292,13 @@ void server() {
         if(work.nsel > chunksize) {
             work.nsel = chunksize;
         }
-        MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
+        if(NTask > 1) {
+            MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
+        } else {
+            if(0 != sample_rows(myrng, &work)) {
+                error = 1;
+            }
+        }
 
         offset += chunksize;
         offsetnew += work.nsel;
@@ -225,12 +306,7 @@ void server() {
             fprintf(stderr, "%td / %td done (%0.4g%%)\r", offset, bb.size, (100. / bb.size) * offset);
         }
     }
-    int i;
-    for(i = 1; i < NTask; i ++) {
-        struct work work;
-        MPI_Send(&work, 1, MPI_TYPE_WORK, i, DIE_TAG, MPI_COMM_WORLD);
-    }
-
+    return error;
 }
 void slave() {
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
@@ -244,63 +320,10 @@ void slave() {
         if(status.MPI_TAG == DIE_TAG) {
             break;
         }
-        gsl_rng_set(rng, work.seed);
-
-        int64_t offset = work.offset;
-        int64_t chunksize = work.chunksize;
-        int64_t offsetnew = work.offsetnew;
-        int64_t nsel = work.nsel;
-        BigArray array;
-        BigBlockPtr ptrnew;
-        BigArray arraynew;
-
-        size_t dims[2];
-        void * buffer = malloc(dtype_itemsize(bb.dtype) * bb.nmemb * nsel);
-        dims[0] = nsel;
-        dims[1] = bb.nmemb;
-        big_array_init(&arraynew, buffer, bb.dtype, 2, dims, NULL);
-
-        ptrdiff_t i;
-        size_t step = dtype_itemsize(bb.dtype) * bb.nmemb;
-        size_t leftover = chunksize;
-        char * p = buffer;
-        char * q;
-        if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
-            fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
+        if(0 != sample_rows(rng, &work)) {
             result = -1;
             goto bad;
         }
-        q = array.data;
-
-//        printf("%ld %ld\n", nsel, leftover);
-        for(i = 0; i < chunksize; i ++) {
-            int64_t r = gsl_rng_uniform_int(rng, leftover);
-            if(r < nsel) {
-                memcpy(p, q, step);
-                p += step;
-                nsel --;
-            }
-            if(nsel == 0) break;
-            leftover --;
-            q += step;
-        }
-        if(nsel != 0) abort();
-        free(array.data);
-        if(0 != big_block_seek(&bbnew, &ptrnew, offsetnew)) {
-            fprintf(stderr, "failed to seek new: %s\n", big_file_get_error_message());
-            result = -1;
-            free(arraynew.data);
-            goto bad;
-        }
-
-        if(0 != big_block_write(&bbnew, &ptrnew, &arraynew)) {
-            fprintf(stderr, "failed to write new: %s\n", big_file_get_error_message());
-            result = -1;
-            free(arraynew.data);
-            goto bad;
-        }
-
-        free(arraynew.data);
         MPI_Send(&result, 1, MPI_INT, 0, DONE_TAG, MPI_COMM_WORLD);
         continue;
     bad:
-- 
2.43.0


From b2abc87115302a8a8a715e18f4e478c6f1c018b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 58/77] fix: cat prints the requested number of rows whatever
 the size of the buffer

It printed up to a buffer more than was asked for, looped for ever if a row is
larger than the buffer, and divided by zero if rows are empty.
---
 utils/bigfile-cat.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index 82e1f37..df5321c 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -82,14 +82,16 @@ int main(int argc, char * argv[]) {
 
     ptrdiff_t end = start + size;
 
-    size_t chunksize = buffersize / (bb.nmemb * big_file_dtype_itemsize(bb.dtype));
+    size_t rowsize = bb.nmemb * big_file_dtype_itemsize(bb.dtype);
+    size_t chunksize = rowsize > 0 ? buffersize / rowsize : size;
+    if(chunksize == 0) chunksize = 1;   /* at least one row at a time */
     BigBlockPtr ptr;
     BigBlockPtr ptrnew;
     ptrdiff_t offset;
     BigArray array;
 
     for(offset = start; offset < end; ) {
-        if(chunksize > size) chunksize = size;
+        if(chunksize > end - offset) chunksize = end - offset;
         if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
             fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
             exit(1);
-- 
2.43.0


From fcc5c75cdcf64ec092f3c5a9db46ab65d031871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 59/77] fix: the tools report output that could not be written

---
 utils/bigfile-cat.c      | 4 ++++
 utils/bigfile-get-attr.c | 4 ++++
 utils/bigfile-ls.c       | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index df5321c..727ca98 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -120,5 +120,9 @@ int main(int argc, char * argv[]) {
     }
     big_block_close(&bb);
     big_file_close(&bf);
+    if(0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     return 0;
 }
diff --git a/utils/bigfile-get-attr.c b/utils/bigfile-get-attr.c
index 4ce5370..f467c1c 100644
--- a/utils/bigfile-get-attr.c
+++ b/utils/bigfile-get-attr.c
@@ -84,5 +84,9 @@ int main(int argc, char * argv[]) {
     }
     big_block_close(&bb);
     big_file_close(&bf);
+    if(0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     return 0;
 }
diff --git a/utils/bigfile-ls.c b/utils/bigfile-ls.c
index 5c2d3a5..44bbf57 100644
--- a/utils/bigfile-ls.c
+++ b/utils/bigfile-ls.c
@@ -122,5 +122,9 @@ int main(int argc, char * argv[]) {
         }
         big_file_close(&bf);
     }
+    if(0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     return 0;
 }
-- 
2.43.0


From aa121965ad006c424dcbdd81c8958ed58279354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 60/77] fix: bigfile-create accepts rows that are larger than
 the buffer

---
 utils/bigfile-create.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index 036bc2c..0f61d9b 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -64,10 +64,11 @@ int main(int argc, char * argv[]) {
     signal(SIGUSR1, usr1);
 
     size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+    if(chunksize == 0) chunksize = 1;   /* at least one row at a time */
     BigBlockPtr ptr;
     BigArray array;
 
-    char * buffer = malloc(buffersize);
+    char * buffer = malloc(chunksize * bb.nmemb * dtype_itemsize(bb.dtype));
     ptrdiff_t offset = 0;
     while(!feof(stdin)) {
         size_t nread = fread(buffer, bb.nmemb * dtype_itemsize(bb.dtype), chunksize, stdin);
-- 
2.43.0


From 0927f0da94a67d4e5009d3c244763212380cab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 61/77] fix: bigfile-create reports errors, and creates an
 empty column from no input

Without input the description kept the size it was created with, -1.
---
 utils/bigfile-create.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index 0f61d9b..5ca768f 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -53,6 +53,10 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "failed to open: %s: %s\n", argv[1], big_file_get_error_message());
         exit(1);
     }
+    if(nmemb <= 0) {
+        fprintf(stderr, "rows need at least one item: -n %d\n", nmemb);
+        exit(1);
+    }
     dtype = argv[3];
     size_t fsize[1] = {-1};
 
@@ -74,14 +78,24 @@ int main(int argc, char * argv[]) {
         size_t nread = fread(buffer, bb.nmemb * dtype_itemsize(bb.dtype), chunksize, stdin);
         size_t dims[2] = {nread, bb.nmemb};
         big_array_init(&array, buffer, bb.dtype, 2, dims, NULL);
-        big_block_seek(&bb, &ptr, offset);
-        big_block_write(&bb, &ptr, &array);
+        if(0 != big_block_seek(&bb, &ptr, offset) || 0 != big_block_write(&bb, &ptr, &array)) {
+            fprintf(stderr, "failed to write: %s: %s\n", argv[2], big_file_get_error_message());
+            exit(1);
+        }
         offset += nread;
         countin += nread;
     }
     bb.size = offset;
     bb.fsize[0] = offset;
-    big_block_close(&bb);
+    bb.dirty = 1;
+    if(ferror(stdin)) {
+        fprintf(stderr, "failed to read the input\n");
+        exit(1);
+    }
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close: %s: %s\n", argv[2], big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From dc9efe4f94ab6a863a5e4a30e07a2b2864d2c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 62/77] fix: get-attr fails if an attribute does not exist

---
 utils/bigfile-get-attr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-get-attr.c b/utils/bigfile-get-attr.c
index f467c1c..7552e6c 100644
--- a/utils/bigfile-get-attr.c
+++ b/utils/bigfile-get-attr.c
@@ -66,6 +66,7 @@ int main(int argc, char * argv[]) {
         exit(1);
     }
     int i; 
+    int missing = 0;
     if(argc - optind == 2) {
         size_t nattr;
         BigAttr * attrs = big_block_list_attrs(&bb, &nattr);
@@ -80,6 +81,7 @@ int main(int argc, char * argv[]) {
             print_attr(attr, argc - optind == 3);
         } else {
             printf("%s, not attr:\n", argv[i]);
+            missing = 1;
         }
     }
     big_block_close(&bb);
@@ -88,5 +90,5 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "failed to write the output\n");
         exit(1);
     }
-    return 0;
+    return missing;
 }
-- 
2.43.0


From ec2ae15fad27911bd831400e83fc224a864d3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 63/77] fix: do not overrun the stack when formatting elements
 of wide types

---
 src/bigfile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 9322ca2..b33a965 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1265,7 +1265,9 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     _dtype_normalize(ndtype2, dtype);
     ndtype2[0] = '=';
     _dtype_normalize(ndtype, ndtype2);
-    dtype_convert_simple(converted, ndtype, data, dtype, 1);
+    /* wide types have no textual form */
+    if(big_file_dtype_itemsize(ndtype) <= sizeof(converted))
+        dtype_convert_simple(converted, ndtype, data, dtype, 1);
 
     p.v = converted;
 #define FORMAT1(dtype, defaultfmt) \
-- 
2.43.0


From db6dc17865e1c403b24e9e95232984523d2cb121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 64/77] fix: get-attr and cat print strings, not the name of
 their type

---
 src/bigfile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index b33a965..4cba21b 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1239,6 +1239,7 @@ typedef struct {double r; double i;} cplx128_t;
 typedef struct {float r; float i;} cplx64_t;
 typedef union {
     char *a1;
+    char *S1;
     char *b1;
     int64_t *i8;
     uint64_t *u8;
@@ -1282,6 +1283,7 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     } else
 
     FORMAT1(a1, "%c")
+    FORMAT1(S1, "%c")
     FORMAT1(b1, "%d")
     FORMAT1(i8, "%ld")
     FORMAT1(i4, "%d")
-- 
2.43.0


From 0e0b1296aaa565f779bdedafee62b74ca0a5f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 65/77] fix: text that is not a value is an error of
 dtype_parse

---
 src/bigfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 4cba21b..171b690 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1317,12 +1317,12 @@ big_file_dtype_parse(const char * buffer, const char * dtype, void * data, const
 #define PARSE1(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, p.dtype); \
+        if(1 != sscanf(buffer, fmt, p.dtype)) return -1; \
     }
 #define PARSE2(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i); \
+        if(2 != sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i)) return -1; \
     }
     PARSE1(a1, "%c") else
     PARSE1(i8, "%ld") else
-- 
2.43.0


From 31233d971051c49f3e57e808905f48d12a3dbf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 66/77] fix: set-attr stores values without overrunning its
 memory

The memory was allocated before the number of values was known; a new attribute
without a type crashed.
---
 utils/bigfile-set-attr.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index 291741d..a43da2e 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -66,19 +66,28 @@ int main(int argc, char * argv[]) {
             nmemb = attr->nmemb;
         }
     }
+    if(dtype == NULL) {
+        fprintf(stderr, "the type of a new attribute is needed\n");
+        exit(1);
+    }
+    if(nmemb == 0) {
+        if(big_file_dtype_kind(dtype) == 'S') nmemb = strlen(argv[4]) + 1;
+        else nmemb = argc - optind + 1 - 4;
+    }
+    if(nmemb < 0) {
+        usage();
+    }
     char * data = malloc(big_file_dtype_itemsize(dtype) * nmemb);
 
     memset(data, 0, big_file_dtype_itemsize(dtype) * nmemb);
 
     if(big_file_dtype_kind(dtype) == 'S') {
-        if (nmemb == 0) nmemb = strlen(argv[4]) + 1;
         if (nmemb != strlen(argv[4]) + 1) {
             fprintf(stderr, "nmemb and number of arguments mismatch\n");
             exit(1);
         }
         memcpy(data, argv[4], strlen(argv[4]) + 1); 
     } else {
-        if (nmemb == 0) nmemb = argc - optind + 1 - 4;
         if (nmemb != argc - optind + 1 - 4) {
             fprintf(stderr, "nmemb and number of arguments mismatch\n");
             exit(1);
@@ -86,7 +95,7 @@ int main(int argc, char * argv[]) {
         for(i = 4; i < argc - optind + 1; i ++) {
             char * p = data + (i - 4) * big_file_dtype_itemsize(dtype);
             if(0 != big_file_dtype_parse(argv[i], dtype, p, NULL)) {
-                fprintf(stderr, "failed to parse the data `%s`\n", p);
+                fprintf(stderr, "failed to parse the data `%s`\n", argv[i]);
                 exit(1);
             }
         }
-- 
2.43.0


From ef91d40f46f21d60d62005613c7051db3567562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 67/77] fix: set-attr fails if the attribute could not be set
 or saved

---
 utils/bigfile-set-attr.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index a43da2e..8684a74 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -101,10 +101,16 @@ int main(int argc, char * argv[]) {
         }
     }
 
-    big_block_set_attr(&bb, argv[3], data, dtype, nmemb);
+    if(0 != big_block_set_attr(&bb, argv[3], data, dtype, nmemb)) {
+        fprintf(stderr, "failed to set attribute: %s\n", big_file_get_error_message());
+        exit(1);
+    }
 
     free(data);
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to save attribute: %s\n", big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From fce118e82b2b89bd20611016ce22ee8ca1f28146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 68/77] fix: ls fails if the block it is asked for cannot be
 opened

---
 utils/bigfile-ls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/bigfile-ls.c b/utils/bigfile-ls.c
index 44bbf57..08b64aa 100644
--- a/utils/bigfile-ls.c
+++ b/utils/bigfile-ls.c
@@ -119,6 +119,7 @@ int main(int argc, char * argv[]) {
         }
         if(0 != listbigblock(&bf, argv[2])) {
             fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
+            exit(1);
         }
         big_file_close(&bf);
     }
-- 
2.43.0


From 4e6cd25b233712d8d4696adedaef41a59110a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 69/77] fix: ls fails if it leaves out a block that cannot be
 read

---
 utils/bigfile-ls.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-ls.c b/utils/bigfile-ls.c
index 08b64aa..d939c82 100644
--- a/utils/bigfile-ls.c
+++ b/utils/bigfile-ls.c
@@ -10,6 +10,7 @@
 #include <sys/stat.h>
 
 int longfmt = 0;
+int failed = 0;
 
 
 static void usage() {
@@ -51,6 +52,7 @@ static void listbigfile_r(BigFile * bf, char * path) {
     n = scandir(buf, &namelist, filter, alphasort);
     if (n < 0) {
         fprintf(stderr, "cannot open dir: %s\n", buf);
+        failed = 1;
     } else {
         int i;
         for(i = 0; i < n ; i ++) {
@@ -70,6 +72,13 @@ static void listbigfile_r(BigFile * bf, char * path) {
 static int listbigblock(BigFile * bf, char * blockname) {
     BigBlock bb = {0};
     if(0 != big_file_open_block(bf, &bb, blockname)) {
+        /* other directories are passed over, damaged blocks are not */
+        char * buf = alloca(strlen(bf->basename) + strlen(blockname) + 10);
+        sprintf(buf, "%s/%s/header", bf->basename, blockname);
+        if(0 == access(buf, F_OK)) {
+            fprintf(stderr, "failed to open: %s : %s\n", blockname, big_file_get_error_message());
+            failed = 1;
+        }
         return -1;
     }
     if(!longfmt) {
@@ -127,5 +136,5 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "failed to write the output\n");
         exit(1);
     }
-    return 0;
+    return failed;
 }
-- 
2.43.0


From 038a453d6698711d1a3a2fd6e57c28a8a76402f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 70/77] fix: bigfile-check exits with a non-zero status if a
 check failed

It always exited with 0.  The status of bigfile-cat was lost in the pipe.
---
 utils/bigfile-check | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/utils/bigfile-check b/utils/bigfile-check
index b777019..171011d 100755
--- a/utils/bigfile-check
+++ b/utils/bigfile-check
@@ -2,13 +2,15 @@
 
 usage() {
     echo 'Usage: bigfile-check file [block ...]' >&2
-    exit;
+    exit 1;
 }
 
 fail () {
-    exit;
+    exit 1;
 }
 
+set -o pipefail
+
 
 VERBOSE=0
 while getopts ":v" opt; do
@@ -43,12 +45,12 @@ check() {
     local sumheader
     sum=`$ROOT/bigfile-cat -b $FILE $BLOCK | sum -s | awk '{print $1}'`
     if [ $? != 0 ]; then
-        echo cat failed
+        echo cat failed $BLOCK
         fail
     fi
     expectedsum=`$ROOT/bigfile-ls -l $FILE $BLOCK | awk '{print $5}'`
     if [ $? != 0 ]; then
-        echo ls failed
+        echo ls failed $BLOCK
         fail
     fi
     if [ $sum -ne $expectedsum ]; then
@@ -57,18 +59,17 @@ check() {
     fi
 }
 if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE`
+    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
 else
     BLOCKS="$*"
 fi
 JOBS=
+STATUS=0
 for block in $BLOCKS ; do
     ( check $block ) &
     JOBS="$JOBS $!"
 done
 for job in $JOBS ; do
-    wait $job
-    if [ $? != 0 ]; then
-       fail
-    fi
+    wait $job || STATUS=1
 done
+exit $STATUS
-- 
2.43.0


From d04ac9f1011c78d540869b75d379770e3d982725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 71/77] fix: bigfile-rename does not move a block into an
 existing one

bigfile-repartition then went on with that one, and removed the block.
---
 utils/bigfile-rename | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/bigfile-rename b/utils/bigfile-rename
index d79ed0e..43eb263 100755
--- a/utils/bigfile-rename
+++ b/utils/bigfile-rename
@@ -11,4 +11,9 @@ fi;
 
 FILE=$1
 shift
+if [ -e $FILE/$2 ]; then
+    # mv would move the block into it
+    echo $FILE/$2 exists >&2
+    exit 1
+fi
 mv  $FILE/$1 $FILE/$2
-- 
2.43.0


From a53601fa2703536b52ca6c0ee8e616bc00b437c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 72/77] fix: bigfile-repartition exits with a non-zero status
 if it failed

---
 utils/bigfile-repartition | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 840b6d9..0e61761 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -2,11 +2,11 @@
 
 usage() {
     echo 'Usage: bigfile-repartition file Nfile block ...' >&2
-    exit;
+    exit 1;
 }
 
 fail () {
-    exit;
+    exit 1;
 }
 
 
@@ -42,12 +42,18 @@ repart() {
     $ROOT/bigfile-rm $FILE ${BLOCK}-REPBAK ||fail
 }
 if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE`
+    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
 else
     BLOCKS="$*"
 fi
 
+JOBS=
+STATUS=0
 for block in $BLOCKS ; do
     ( repart $block ) &
+    JOBS="$JOBS $!"
 done
-wait
+for job in $JOBS ; do
+    wait $job || STATUS=1
+done
+exit $STATUS
-- 
2.43.0


From ac4211303b291c75f63bb6436f510f4ff0f90834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 73/77] fix: bigfile-rm exits with a non-zero status if a block
 could not be removed

---
 utils/bigfile-rm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-rm b/utils/bigfile-rm
index 9d29aa7..4528549 100755
--- a/utils/bigfile-rm
+++ b/utils/bigfile-rm
@@ -11,6 +11,8 @@ fi;
 
 FILE=$1
 shift
+STATUS=0
 for i in $*; do
-    rm -r $FILE/$i;
+    rm -r $FILE/$i || STATUS=1
 done
+exit $STATUS
-- 
2.43.0


From 210f657fd00d83182549dd7c98fe8b6d92631031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 74/77] fix: set-attr keeps the type of the attribute it
 replaces

---
 utils/bigfile-set-attr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index 8684a74..af6b39c 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -60,7 +60,9 @@ int main(int argc, char * argv[]) {
     attr = big_block_lookup_attr(&bb, argv[3]);
     if(attr) {
         if(dtype == NULL) {
-            dtype = attr->dtype;
+            /* a copy, attr is about to be replaced */
+            memcpy(ndtype, attr->dtype, sizeof(ndtype));
+            dtype = ndtype;
         }
         if(nmemb == 0) {
             nmemb = attr->nmemb;
-- 
2.43.0


From e22e0c047eeccd2435e8f2aecaec94b325684ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 75/77] fix: bigfile-repartition works without -v

---
 utils/bigfile-repartition | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 0e61761..816a69d 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -10,7 +10,7 @@ fail () {
 }
 
 
-VERBOSE=0
+VERBOSE=
 while getopts ":v" opt; do
     case $opt in 
         v )
-- 
2.43.0


From e7686b6f351453c950f509a933ee05653b875ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 76/77] fix: let attributes be set from the memory of other
 attributes of the set

---
 src/bigfile.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 171b690..f0472a9 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1893,6 +1893,7 @@ static int
 attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data, const char * dtype, int nmemb)
 {
     BigAttr * attr;
+    int rt = -1;
 
     RAISEIF (
          strchr(attrname, ' ')
@@ -1905,25 +1906,37 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
     RAISEIF(!dtype_isstorable(dtype) || nmemb < 0, ex_name,
         "Attribute cannot be stored with dtype `%s' and length %d", dtype, nmemb);
 
+    /* The arguments may be those of an attribute of this set, which are about to move. */
+    size_t ldata = (size_t) big_file_dtype_itemsize(dtype) * nmemb;
+    char srcdtype[8] = {0};
+    strncpy(srcdtype, dtype, 7);
+    char * name = _strdup(attrname);
+    char * src = malloc(ldata + 1);
+    RAISEIF(name == NULL || src == NULL, ex_memory, "No memory");
+    if(ldata > 0) memcpy(src, data, ldata);
+
     attrset->dirty = 1;
     /* Remove it if it exists*/
-    attr = attrset_lookup_attr(attrset, attrname);
+    attr = attrset_lookup_attr(attrset, name);
     if(attr)
-        attrset_remove_attr(attrset, attrname);
+        attrset_remove_attr(attrset, name);
     /* add ensures the dtype has been normalized! */
-    RAISEIF(0 != attrset_add_attr(attrset, attrname, dtype, nmemb),
+    RAISEIF(0 != attrset_add_attr(attrset, name, srcdtype, nmemb),
             ex_add,
             "Failed to add attr");
-    attr = attrset_lookup_attr(attrset, attrname);
+    attr = attrset_lookup_attr(attrset, name);
     RAISEIF(attr->nmemb != nmemb,
             ex_mismatch,
             "attr nmemb mismatch");
-    return dtype_convert_simple(attr->data, attr->dtype, data, dtype, attr->nmemb);
+    rt = dtype_convert_simple(attr->data, attr->dtype, src, srcdtype, attr->nmemb);
 
-ex_name:
 ex_mismatch:
 ex_add:
-    return -1;
+ex_memory:
+    free(src);
+    free(name);
+ex_name:
+    return rt;
 }
 
 static int
-- 
2.43.0


From f66c66b4a5fa06a5e145ec5e8d3250d31fab5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 77/77] fix: a name with a leading slash names a sub-file of a
 FileMPI as well

---
 bigfile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index f24f4d5..b5ab06e 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -292,7 +292,7 @@ class FileMPI(FileBase):
         return block
 
     def subfile(self, key):
-        return FileMPI(self.comm, os.path.join(self.basename, key))
+        return FileMPI(self.comm, os.path.join(self.basename, key.lstrip('/')))
 
     def create(self, blockname, dtype=None, size=None, Nfile=1):
         block = ColumnMPI(self.comm)
-- 
2.43.0

