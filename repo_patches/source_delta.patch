From cc0fa2a60c61c7c76080fb2fac8e64b2d6e7b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 01/44] fix: compare a new key with the last record actually
 stored after a flush

When the write buffer is empty, embedDBPut read the previous key from the last
slot of the last written page. After a flush that page can be partial, so the
ordering check used uninitialised bytes.
---
 lib/Distribution/embedDB.c | 4 ++--
 src/embedDB/embedDB.c      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a60e217..c1c8e6d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1433,8 +1433,8 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         void *previousKey = NULL;
         if (count == 0) {
             readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            /* The last page may be only partially full if it was written by a flush */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5e6b43f..b18d145 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1009,8 +1009,8 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         void *previousKey = NULL;
         if (count == 0) {
             readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            /* The last page may be only partially full if it was written by a flush */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-- 
2.43.0


From bc67b2c0f638d981dece7f82ce77de3aa1a942ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 02/44] fix: binary search over pages returns a defined result
 and cannot underflow

binarySearch fell off the end without returning a value when the range narrowed
to one page, and 'pageId - 1' wrapped to 2^32-1 for keys below the first page.
---
 lib/Distribution/embedDB.c | 3 +++
 src/embedDB/embedDB.c      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c1c8e6d..9eab0a4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1813,6 +1813,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1824,6 +1826,7 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b18d145..f83ce32 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1389,6 +1389,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1400,6 +1402,7 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
-- 
2.43.0


From fac1db62a82076add1b73cdc85086ed971d5f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 03/44] fix: 8-bit bitmap reads the whole 32-bit value

updateBitmapInt8 read only 16 bits of the 32-bit datum the other stock bitmap
functions and comparators use, so e.g. 65541 was filed with the values below 10
and dropped from range queries.
---
 lib/Distribution/embedDB.c           | 2 +-
 lib/EmbedDB-Utility/embedDBUtility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9eab0a4..dd32502 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4137,7 +4137,7 @@ void embedDBFreeOperatorRecursive(embedDBOperator **op) {
 /* A bitmap with 8 buckets (bits). Range 0 to 100. */
 void updateBitmapInt8(void *data, void *bm) {
     // Note: Assuming int key is right at the start of the data record
-    int32_t val = *((int16_t *)data);
+    int32_t val = *((int32_t *)data);
     uint8_t *bmval = (uint8_t *)bm;
 
     if (val < 10)
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e633364..a3434a6 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -43,7 +43,7 @@
 /* A bitmap with 8 buckets (bits). Range 0 to 100. */
 void updateBitmapInt8(void *data, void *bm) {
     // Note: Assuming int key is right at the start of the data record
-    int32_t val = *((int16_t *)data);
+    int32_t val = *((int32_t *)data);
     uint8_t *bmval = (uint8_t *)bm;
 
     if (val < 10)
-- 
2.43.0


From c28f53dd578d6a4d72a0848733f89bc8d0fa6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 04/44] fix: inBitmapInt16/inBitmapInt64 do not truncate the
 overlap to 8 bits

The result was returned as int8_t, so an overlap in any but the low 8 bits was
reported as no overlap and matching records were skipped.
---
 lib/Distribution/embedDB.c           | 8 ++++----
 lib/EmbedDB-Utility/embedDBUtility.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index dd32502..4be3706 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4222,8 +4222,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return non-zero if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4287,8 +4287,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return non-zero if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index a3434a6..05596d5 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -128,8 +128,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return non-zero if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -193,8 +193,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return non-zero if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
-- 
2.43.0


From 0547f1790ed5f5c13af5cbc2c6718f5c90a12291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 05/44] fix: build 64-bit range bitmaps in the byte order
 updates use

updateBitmapInt64 numbers buckets by byte, but buildBitmapInt64FromRange filled
neighbouring buckets arithmetically on a little-endian uint64_t, so a range
bitmap missed every bucket in the other bytes and range queries lost records.
---
 lib/Distribution/embedDB.c           | 34 ++++++++++++++++++++++++----
 lib/EmbedDB-Utility/embedDBUtility.c | 34 ++++++++++++++++++++++++----
 2 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 4be3706..66a7eb6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4298,6 +4298,32 @@ int8_t inBitmapInt64(void *data, void *bm) {
  * @param	max		maximum value (may be NULL)
  * @param	bm		bitmap created
  */
+/* The 64-bit bitmap is stored as 8 bytes; buckets for larger values are in later
+ * bytes and, within a byte, in less significant bits. */
+static void setHigherBucketsInt64(uint8_t *bm) {
+    int8_t found = 0;
+    for (int8_t i = 0; i < 8; i++) {
+        if (found) {
+            bm[i] = 255;
+        } else if (bm[i] != 0) {
+            bm[i] = bm[i] | (bm[i] - 1);
+            found = 1;
+        }
+    }
+}
+
+static void setLowerBucketsInt64(uint8_t *bm) {
+    int8_t found = 0;
+    for (int8_t i = 7; i >= 0; i--) {
+        if (found) {
+            bm[i] = 255;
+        } else if (bm[i] != 0) {
+            bm[i] = ~(bm[i] - 1);
+            found = 1;
+        }
+    }
+}
+
 void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
     if (min == NULL && max == NULL) {
         *(uint64_t *)bm = UINT64_MAX; /* Everything */
@@ -4306,8 +4332,8 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         uint64_t minMap = 0, maxMap = 0;
         if (min != NULL) {
             updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
+            // Turn on all bits for values above the min value
+            setHigherBucketsInt64((uint8_t *)&minMap);
             if (max == NULL) {
                 *(uint64_t *)bm = minMap;
                 return;
@@ -4315,8 +4341,8 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         }
         if (max != NULL) {
             updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
+            // Turn on all bits for values below the max value
+            setLowerBucketsInt64((uint8_t *)&maxMap);
             if (min == NULL) {
                 *(uint64_t *)bm = maxMap;
                 return;
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 05596d5..66130de 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -204,6 +204,32 @@ int8_t inBitmapInt64(void *data, void *bm) {
  * @param	max		maximum value (may be NULL)
  * @param	bm		bitmap created
  */
+/* The 64-bit bitmap is stored as 8 bytes; buckets for larger values are in later
+ * bytes and, within a byte, in less significant bits. */
+static void setHigherBucketsInt64(uint8_t *bm) {
+    int8_t found = 0;
+    for (int8_t i = 0; i < 8; i++) {
+        if (found) {
+            bm[i] = 255;
+        } else if (bm[i] != 0) {
+            bm[i] = bm[i] | (bm[i] - 1);
+            found = 1;
+        }
+    }
+}
+
+static void setLowerBucketsInt64(uint8_t *bm) {
+    int8_t found = 0;
+    for (int8_t i = 7; i >= 0; i--) {
+        if (found) {
+            bm[i] = 255;
+        } else if (bm[i] != 0) {
+            bm[i] = ~(bm[i] - 1);
+            found = 1;
+        }
+    }
+}
+
 void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
     if (min == NULL && max == NULL) {
         *(uint64_t *)bm = UINT64_MAX; /* Everything */
@@ -212,8 +238,8 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         uint64_t minMap = 0, maxMap = 0;
         if (min != NULL) {
             updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
+            // Turn on all bits for values above the min value
+            setHigherBucketsInt64((uint8_t *)&minMap);
             if (max == NULL) {
                 *(uint64_t *)bm = minMap;
                 return;
@@ -221,8 +247,8 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         }
         if (max != NULL) {
             updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
+            // Turn on all bits for values below the max value
+            setLowerBucketsInt64((uint8_t *)&maxMap);
             if (min == NULL) {
                 *(uint64_t *)bm = maxMap;
                 return;
-- 
2.43.0


From b795895e12e3a949098ac47745e2505bad9ef558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 06/44] fix: updateBitmapInt16 terminates for large values

The bucket search kept adding the step after the last bucket: millions of
iterations for large values and signed overflow (an endless loop) near INT32_MAX.
---
 lib/Distribution/embedDB.c           | 5 ++---
 lib/EmbedDB-Utility/embedDBUtility.c | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 66a7eb6..c3874ac 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4207,12 +4207,11 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    /* Last bit is set if value bigger than largest cutoff */
+    while (val > current && num > 1) {
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 66130de..2360220 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -113,12 +113,11 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    /* Last bit is set if value bigger than largest cutoff */
+    while (val > current && num > 1) {
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
-- 
2.43.0


From ace64f6ff502e1c95e86722d991653a2fdc4efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 07/44] fix: page header holds the max/min records and the
 bitmap without overlap

The max/min records were written at a fixed offset 14, which lies inside the
first record unless an 8-byte indexed bitmap is used, and EMBEDDB_USE_BMAP
without EMBEDDB_USE_INDEX reserved no space for the bitmap at all, so inserts
corrupted stored records. The layout with an 8-byte indexed bitmap is unchanged.
---
 lib/Distribution/embedDB.c | 10 ++++++----
 lib/Distribution/embedDB.h | 13 +++++++------
 src/embedDB/embedDB.c      | 10 ++++++----
 src/embedDB/embedDB.h      | 13 +++++++------
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c3874ac..706f070 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -517,10 +517,10 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
-        void *min = EMBEDDB_GET_MIN_KEY(buf);
+        void *min = EMBEDDB_GET_MIN_KEY(buf, state);
         /* Initialize min to all 1s */
         for (i = 0; i < state->keySize; i++) {
             ((int8_t *)min)[i] = 1;
@@ -607,9 +607,11 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
@@ -1519,7 +1521,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
                 memcpy(ptr, data, state->dataSize);
         } else {
             /* First record inserted */
-            ptr = EMBEDDB_GET_MIN_KEY(state->buffer);
+            ptr = EMBEDDB_GET_MIN_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
             ptr = EMBEDDB_GET_MAX_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 194eb88..7e572fd 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -256,8 +256,6 @@ typedef uint16_t count_t;
 /* Offsets with header */
 #define EMBEDDB_COUNT_OFFSET 4
 #define EMBEDDB_BITMAP_OFFSET 6
-// #define EMBEDDB_MIN_OFFSET		8
-#define EMBEDDB_MIN_OFFSET 14
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
@@ -272,11 +270,14 @@ typedef uint16_t count_t;
 
 #define EMBEDDB_GET_BITMAP(x) ((void *)((int8_t *)x + EMBEDDB_BITMAP_OFFSET))
 
-#define EMBEDDB_GET_MIN_KEY(x) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET))
-#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize))
+/* The max/min records are the last part of the page header (only present with EMBEDDB_USE_MAX_MIN) */
+#define EMBEDDB_MIN_OFFSET(y) (y->headerSize - y->keySize * 2 - y->dataSize * 2)
 
-#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2))
-#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2 + y->dataSize))
+#define EMBEDDB_GET_MIN_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y)))
+#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize))
+
+#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize * 2))
+#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize * 2 + y->dataSize))
 
 #define EMBEDDB_DATA_WRITE_BUFFER 0
 #define EMBEDDB_DATA_READ_BUFFER 1
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index f83ce32..0ab5077 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -93,10 +93,10 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
-        void *min = EMBEDDB_GET_MIN_KEY(buf);
+        void *min = EMBEDDB_GET_MIN_KEY(buf, state);
         /* Initialize min to all 1s */
         for (i = 0; i < state->keySize; i++) {
             ((int8_t *)min)[i] = 1;
@@ -183,9 +183,11 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
@@ -1095,7 +1097,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
                 memcpy(ptr, data, state->dataSize);
         } else {
             /* First record inserted */
-            ptr = EMBEDDB_GET_MIN_KEY(state->buffer);
+            ptr = EMBEDDB_GET_MIN_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
             ptr = EMBEDDB_GET_MAX_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 5d9521b..8d5dfe6 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -76,8 +76,6 @@ typedef uint16_t count_t;
 /* Offsets with header */
 #define EMBEDDB_COUNT_OFFSET 4
 #define EMBEDDB_BITMAP_OFFSET 6
-// #define EMBEDDB_MIN_OFFSET		8
-#define EMBEDDB_MIN_OFFSET 14
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
@@ -92,11 +90,14 @@ typedef uint16_t count_t;
 
 #define EMBEDDB_GET_BITMAP(x) ((void *)((int8_t *)x + EMBEDDB_BITMAP_OFFSET))
 
-#define EMBEDDB_GET_MIN_KEY(x) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET))
-#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize))
+/* The max/min records are the last part of the page header (only present with EMBEDDB_USE_MAX_MIN) */
+#define EMBEDDB_MIN_OFFSET(y) (y->headerSize - y->keySize * 2 - y->dataSize * 2)
 
-#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2))
-#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2 + y->dataSize))
+#define EMBEDDB_GET_MIN_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y)))
+#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize))
+
+#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize * 2))
+#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize * 2 + y->dataSize))
 
 #define EMBEDDB_DATA_WRITE_BUFFER 0
 #define EMBEDDB_DATA_READ_BUFFER 1
-- 
2.43.0


From e8ec0d3ace7c68e178001381c832aeeb0f75372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 08/44] fix: find the index record of a data page by the page
 range the index page stores

embedDBNext assumed that data page p is in index page p / maxIdxRecordsPerPage.
A flush writes a partial index page and a restart loses the buffered one, so the
wrong bitmap was consulted and matching records were skipped. embedDBFlush also
added a record to a full index page (overflowing it), and index pages started by
a flush did not record their first data page. Without EMBEDDB_USE_INDEX but with
a bitmap, embedDBNext divided by an uninitialised maxIdxRecordsPerPage.
---
 lib/Distribution/embedDB.c | 116 ++++++++++++++++++++++++-------------
 src/embedDB/embedDB.c      | 116 ++++++++++++++++++++++++-------------
 2 files changed, 152 insertions(+), 80 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 706f070..b66b54f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -481,6 +481,8 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
+int8_t addIndexRecord(embedDBState *state, id_t pageNum);
+void *findIndexRecord(embedDBState *state, id_t dataPage);
 void embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
@@ -1420,6 +1422,73 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
     }
 }
 
+/**
+ * @brief	Adds the bitmap of the data page in the write buffer to the index write buffer
+ * @param	state	embedDB algorithm state structure
+ * @param	pageNum	Logical page id of the data page
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t addIndexRecord(embedDBState *state, id_t pageNum) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        /* Save index page */
+        if (writeIndexPage(state, buf) == -1)
+            return -1;
+        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+    }
+
+    count_t idxcount = EMBEDDB_GET_COUNT(buf);
+    if (idxcount == 0) {
+        /* Add page id to minimum value spot in page */
+        memcpy((int8_t *)buf + 8, &pageNum, sizeof(id_t));
+    }
+    EMBEDDB_INC_COUNT(buf);
+
+    /* Copy record onto index page */
+    void *bm = EMBEDDB_GET_BITMAP(state->buffer);
+    memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+    return 0;
+}
+
+/**
+ * @brief	Finds the bitmap stored for a data page in the index file
+ * @param	state	embedDB algorithm state structure
+ * @param	dataPage	Logical page id of the data page
+ * @return	Pointer to the bitmap (in the index read buffer), or NULL if no index page covers the data page
+ */
+void *findIndexRecord(embedDBState *state, id_t dataPage) {
+    /* Index pages may be only partially filled (e.g. after a flush), so the page that
+     * covers the data page can be after or before the one expected for full pages. */
+    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+    int8_t direction = 0;
+    while (indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return NULL;
+        }
+
+        int8_t *buf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+        id_t firstDataPage = 0;
+        memcpy(&firstDataPage, buf + 8, sizeof(id_t));
+        if (dataPage < firstDataPage) {
+            if (direction > 0 || indexPage == 0)
+                return NULL;
+            direction = -1;
+            indexPage--;
+        } else if (dataPage - firstDataPage >= EMBEDDB_GET_COUNT(buf)) {
+            if (direction < 0)
+                return NULL;
+            direction = 1;
+            indexPage++;
+        } else {
+            return buf + EMBEDDB_IDX_HEADER_SIZE + (dataPage - firstDataPage) * state->bitmapSize;
+        }
+    }
+    return NULL;
+}
+
 /**
  * @brief	Puts a given key, data pair into structure.
  * @param	state	embedDB algorithm state structure
@@ -1458,25 +1527,8 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         /* Save record in index file */
         if (state->indexFile != NULL) {
-            void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-            count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
-            EMBEDDB_INC_COUNT(buf);
-
-            /* Copy record onto index page */
-            void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+            if (addIndexRecord(state, pageNum) != 0)
+                return -1;
         }
 
         updateMaxiumError(state, state->buffer);
@@ -2113,12 +2165,8 @@ int8_t embedDBFlush(embedDBState *state) {
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        EMBEDDB_INC_COUNT(buf);
-
-        /* Copy record onto index page */
-        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+        if (addIndexRecord(state, pageNum) != 0)
+            return -1;
 
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
@@ -2171,24 +2219,12 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         // If we are just starting to read a new page and we have a query bitmap
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
             // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
+            if (state->indexFile != NULL && searchWriteBuf == 0) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
-
-                // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                void *indexBM = findIndexRecord(state, it->nextDataPage);
 
                 // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                if (indexBM != NULL && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 0ab5077..b10b37c 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -57,6 +57,8 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
+int8_t addIndexRecord(embedDBState *state, id_t pageNum);
+void *findIndexRecord(embedDBState *state, id_t dataPage);
 void embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
@@ -996,6 +998,73 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
     }
 }
 
+/**
+ * @brief	Adds the bitmap of the data page in the write buffer to the index write buffer
+ * @param	state	embedDB algorithm state structure
+ * @param	pageNum	Logical page id of the data page
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t addIndexRecord(embedDBState *state, id_t pageNum) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        /* Save index page */
+        if (writeIndexPage(state, buf) == -1)
+            return -1;
+        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+    }
+
+    count_t idxcount = EMBEDDB_GET_COUNT(buf);
+    if (idxcount == 0) {
+        /* Add page id to minimum value spot in page */
+        memcpy((int8_t *)buf + 8, &pageNum, sizeof(id_t));
+    }
+    EMBEDDB_INC_COUNT(buf);
+
+    /* Copy record onto index page */
+    void *bm = EMBEDDB_GET_BITMAP(state->buffer);
+    memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+    return 0;
+}
+
+/**
+ * @brief	Finds the bitmap stored for a data page in the index file
+ * @param	state	embedDB algorithm state structure
+ * @param	dataPage	Logical page id of the data page
+ * @return	Pointer to the bitmap (in the index read buffer), or NULL if no index page covers the data page
+ */
+void *findIndexRecord(embedDBState *state, id_t dataPage) {
+    /* Index pages may be only partially filled (e.g. after a flush), so the page that
+     * covers the data page can be after or before the one expected for full pages. */
+    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+    int8_t direction = 0;
+    while (indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return NULL;
+        }
+
+        int8_t *buf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+        id_t firstDataPage = 0;
+        memcpy(&firstDataPage, buf + 8, sizeof(id_t));
+        if (dataPage < firstDataPage) {
+            if (direction > 0 || indexPage == 0)
+                return NULL;
+            direction = -1;
+            indexPage--;
+        } else if (dataPage - firstDataPage >= EMBEDDB_GET_COUNT(buf)) {
+            if (direction < 0)
+                return NULL;
+            direction = 1;
+            indexPage++;
+        } else {
+            return buf + EMBEDDB_IDX_HEADER_SIZE + (dataPage - firstDataPage) * state->bitmapSize;
+        }
+    }
+    return NULL;
+}
+
 /**
  * @brief	Puts a given key, data pair into structure.
  * @param	state	embedDB algorithm state structure
@@ -1034,25 +1103,8 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         /* Save record in index file */
         if (state->indexFile != NULL) {
-            void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-            count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
-            EMBEDDB_INC_COUNT(buf);
-
-            /* Copy record onto index page */
-            void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+            if (addIndexRecord(state, pageNum) != 0)
+                return -1;
         }
 
         updateMaxiumError(state, state->buffer);
@@ -1689,12 +1741,8 @@ int8_t embedDBFlush(embedDBState *state) {
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        EMBEDDB_INC_COUNT(buf);
-
-        /* Copy record onto index page */
-        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+        if (addIndexRecord(state, pageNum) != 0)
+            return -1;
 
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
@@ -1747,24 +1795,12 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         // If we are just starting to read a new page and we have a query bitmap
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
             // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
+            if (state->indexFile != NULL && searchWriteBuf == 0) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
-
-                // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                void *indexBM = findIndexRecord(state, it->nextDataPage);
 
                 // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                if (indexBM != NULL && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
-- 
2.43.0


From cd53357bf089c2180b3904de342d296c2f4b310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 09/44] fix: iterators do not use the spline when binary search
 is configured

The spline is never allocated with EMBEDDB_USE_BINARY_SEARCH, yet
embedDBInitIterator dereferenced it.
---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b66b54f..cc05acc 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2087,7 +2087,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b10b37c..47c5bbb 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1663,7 +1663,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
-- 
2.43.0


From 3ed4e7fdc3c4629eff3c284c0649b760c8622286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 10/44] fix: cleanSpline does nothing under binary search and
 stays within the stored points

---
 lib/Distribution/embedDB.c | 15 +++++++++++----
 src/embedDB/embedDB.c      | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index cc05acc..a7062d8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2563,10 +2563,14 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
  * @return	Returns the number of points deleted
  */
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
+    /* There is no spline to clean when using binary search */
+    if (EMBEDDB_USING_BINARY_SEARCH(state->parameters))
+        return 0;
+
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    for (size_t i = 0; i + 1 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2575,9 +2579,12 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
-    if (numPointsErased <= 0)
+    /* Always keep at least two points */
+    if (state->spl->count <= 2)
+        return 0;
+    if (numPointsErased > state->spl->count - 2)
+        numPointsErased = state->spl->count - 2;
+    if (numPointsErased == 0)
         return 0;
     splineErase(state->spl, numPointsErased);
     return numPointsErased;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 47c5bbb..89d93e4 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2139,10 +2139,14 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
  * @return	Returns the number of points deleted
  */
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
+    /* There is no spline to clean when using binary search */
+    if (EMBEDDB_USING_BINARY_SEARCH(state->parameters))
+        return 0;
+
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    for (size_t i = 0; i + 1 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2151,9 +2155,12 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
-    if (numPointsErased <= 0)
+    /* Always keep at least two points */
+    if (state->spl->count <= 2)
+        return 0;
+    if (numPointsErased > state->spl->count - 2)
+        numPointsErased = state->spl->count - 2;
+    if (numPointsErased == 0)
         return 0;
     splineErase(state->spl, numPointsErased);
     return numPointsErased;
-- 
2.43.0


From dbdeac0fc72d6921ad32948dc1ac544a6cf38bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 11/44] fix: compare spline slopes and interpolate without
 64-bit overflow

---
 lib/Distribution/embedDB.c | 32 +++++++++++++++++++++++++++++---
 src/spline/spline.c        | 32 +++++++++++++++++++++++++++++---
 2 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a7062d8..bb705c4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -97,18 +97,44 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compare the slopes y1 / x1 and y2 / x2 without overflow. The y values are differences of page numbers, so each product fits in 96 bits.
+ * @return   Returns -1, 0 or 1 if the first slope is smaller than, equal to or larger than the second.
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+
+    int8_t sign = y1 < 0 ? -1 : 1;
+    uint64_t a = y1 < 0 ? -(uint64_t)y1 : (uint64_t)y1;
+    uint64_t b = y2 < 0 ? -(uint64_t)y2 : (uint64_t)y2;
+
+    if (x1 <= UINT32_MAX && x2 <= UINT32_MAX) {
+        uint64_t left = a * x2, right = b * x1;
+        return left == right ? 0 : (left > right ? sign : -sign);
+    }
+
+    uint64_t leftLow = a * (x2 & UINT32_MAX), rightLow = b * (x1 & UINT32_MAX);
+    uint64_t leftHigh = a * (x2 >> 32) + (leftLow >> 32), rightHigh = b * (x1 >> 32) + (rightLow >> 32);
+    if (leftHigh != rightHigh)
+        return leftHigh > rightHigh ? sign : -sign;
+    leftLow &= UINT32_MAX;
+    rightLow &= UINT32_MAX;
+    return leftLow == rightLow ? 0 : (leftLow > rightLow ? sign : -sign);
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
 }
 
 /**
@@ -399,7 +425,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = (id_t)((long double)(keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 131536b..a2804dc 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -68,18 +68,44 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compare the slopes y1 / x1 and y2 / x2 without overflow. The y values are differences of page numbers, so each product fits in 96 bits.
+ * @return   Returns -1, 0 or 1 if the first slope is smaller than, equal to or larger than the second.
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+
+    int8_t sign = y1 < 0 ? -1 : 1;
+    uint64_t a = y1 < 0 ? -(uint64_t)y1 : (uint64_t)y1;
+    uint64_t b = y2 < 0 ? -(uint64_t)y2 : (uint64_t)y2;
+
+    if (x1 <= UINT32_MAX && x2 <= UINT32_MAX) {
+        uint64_t left = a * x2, right = b * x1;
+        return left == right ? 0 : (left > right ? sign : -sign);
+    }
+
+    uint64_t leftLow = a * (x2 & UINT32_MAX), rightLow = b * (x1 & UINT32_MAX);
+    uint64_t leftHigh = a * (x2 >> 32) + (leftLow >> 32), rightHigh = b * (x1 >> 32) + (rightLow >> 32);
+    if (leftHigh != rightHigh)
+        return leftHigh > rightHigh ? sign : -sign;
+    leftLow &= UINT32_MAX;
+    rightLow &= UINT32_MAX;
+    return leftLow == rightLow ? 0 : (leftLow > rightLow ? sign : -sign);
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
 }
 
 /**
@@ -370,7 +396,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = (id_t)((long double)(keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
-- 
2.43.0


From 594f74bcce6865f19a2a3c09c20b352e430f0f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 12/44] fix: recovery at an erase block boundary handed out the
 next block without erasing it

---
 lib/Distribution/embedDB.c | 8 ++++++++
 src/embedDB/embedDB.c      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index bb705c4..cbbbf6d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -849,6 +849,14 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalPageId;
+
+            /* the block we skipped is going to be written next, so it must not still contain the old pages */
+            if (count % blockSize == 0 && state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Failed to erase the next block of data pages.\n");
+#endif
+                return -1;
+            }
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 89d93e4..df0563d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -399,6 +399,14 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalPageId;
+
+            /* the block we skipped is going to be written next, so it must not still contain the old pages */
+            if (count % blockSize == 0 && state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Failed to erase the next block of data pages.\n");
+#endif
+                return -1;
+            }
         }
     }
 
-- 
2.43.0


From 2813db7a948ac5d69abf74ebf0ac1c5ca3f350ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 13/44] fix: embedDBPut after embedDBPutVar stored a record
 that pointed at variable data

---
 lib/Distribution/embedDB.c | 6 ++++--
 src/embedDB/embedDB.c      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index cbbbf6d..9c93dee 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1729,8 +1729,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Perform the regular insert
     state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    int8_t r = embedDBPut(state, key, data);
+    // A following embedDBPut must not be linked to the variable data
+    state->recordHasVarData = 0;
+    if (r != 0) {
         return r;
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index df0563d..83f6501 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1279,8 +1279,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Perform the regular insert
     state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    int8_t r = embedDBPut(state, key, data);
+    // A following embedDBPut must not be linked to the variable data
+    state->recordHasVarData = 0;
+    if (r != 0) {
         return r;
     }
 
-- 
2.43.0


From 6d088f247c252ee5c7377249e8136e26c273a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 14/44] fix: stream read resuming at a page boundary returned
 the page header as data

---
 lib/Distribution/embedDB.c | 9 +++++++++
 src/embedDB/embedDB.c      | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9c93dee..0d834be 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2433,6 +2433,15 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    if (stream->bytesRead >= stream->totalBytes) {
+        return 0;
+    }
+
+    // If the previous read ended on a page boundary, skip past the header of the next page
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 83f6501..4f9ab82 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1983,6 +1983,15 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    if (stream->bytesRead >= stream->totalBytes) {
+        return 0;
+    }
+
+    // If the previous read ended on a page boundary, skip past the header of the next page
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
-- 
2.43.0


From 0efd059f12da5c0cd13144bcc1f7923ae7497448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 15/44] fix: copying the write buffer into the read buffer left
 the read cache marked valid

---
 lib/Distribution/embedDB.c | 4 ++++
 src/embedDB/embedDB.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0d834be..b2a3efb 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2747,6 +2747,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds the page that was read into it
+    state->bufferedPageId = (id_t)-1;
 }
 
 /**
@@ -2760,6 +2762,8 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds the page that was read into it
+    state->bufferedVarPage = (id_t)-1;
 }
 
 /**
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4f9ab82..b36a048 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2297,6 +2297,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds the page that was read into it
+    state->bufferedPageId = (id_t)-1;
 }
 
 /**
@@ -2310,6 +2312,8 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds the page that was read into it
+    state->bufferedVarPage = (id_t)-1;
 }
 
 /**
-- 
2.43.0


From 250c11c949a5a543f1b7e38a8ba4374c6110740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 16/44] fix: read caches kept serving the old contents of a
 page after it was rewritten

---
 lib/Distribution/embedDB.c | 12 ++++++++++++
 src/embedDB/embedDB.c      | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b2a3efb..4b606d2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2533,6 +2533,10 @@ id_t writePage(embedDBState *state, void *buffer) {
         }
     }
 
+    /* The read buffer must not keep serving the previous contents of this page */
+    if (state->bufferedPageId == physicalPageNum)
+        state->bufferedPageId = (id_t)-1;
+
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
@@ -2665,6 +2669,10 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         state->minIndexPageId += state->eraseSizeInPages;
     }
 
+    /* The read buffer must not keep serving the previous contents of this page */
+    if (state->bufferedIndexPageId == physicalPageNumber)
+        state->bufferedIndexPageId = (id_t)-1;
+
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
@@ -2720,6 +2728,10 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
+    // The read buffer must not keep serving the previous contents of this page
+    if (state->bufferedVarPage == physicalPageId)
+        state->bufferedVarPage = (id_t)-1;
+
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b36a048..1ea0e92 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2083,6 +2083,10 @@ id_t writePage(embedDBState *state, void *buffer) {
         }
     }
 
+    /* The read buffer must not keep serving the previous contents of this page */
+    if (state->bufferedPageId == physicalPageNum)
+        state->bufferedPageId = (id_t)-1;
+
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
@@ -2215,6 +2219,10 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         state->minIndexPageId += state->eraseSizeInPages;
     }
 
+    /* The read buffer must not keep serving the previous contents of this page */
+    if (state->bufferedIndexPageId == physicalPageNumber)
+        state->bufferedIndexPageId = (id_t)-1;
+
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
@@ -2270,6 +2278,10 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
+    // The read buffer must not keep serving the previous contents of this page
+    if (state->bufferedVarPage == physicalPageId)
+        state->bufferedVarPage = (id_t)-1;
+
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
-- 
2.43.0


From bb71d7f0c2c958a2470baaed45be4f4776ca89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 17/44] fix: the newest record of an erased variable data block
 was read after the erase

---
 lib/Distribution/embedDB.c | 15 ++++++++-------
 src/embedDB/embedDB.c      | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 4b606d2..9b92c04 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2704,6 +2704,14 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is going to be deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2712,13 +2720,6 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
         void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
         memcpy(&state->minVarRecordId, buf, state->keySize);
         state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1ea0e92..a1da32d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2254,6 +2254,14 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is going to be deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2262,13 +2270,6 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
         void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
         memcpy(&state->minVarRecordId, buf, state->keySize);
         state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
-- 
2.43.0


From 256974d35a2903bb0d4aa219e0c790483c922448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 18/44] fix: an empty variable data page was written, whose
 header made overwritten data look available

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9b92c04..f614322 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1714,7 +1714,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
+    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && state->currentVarLoc % state->pageSize != state->variableDataHeaderSize)) {
         writeVariablePage(state, buf);
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
         // Move data writing location to the beginning of the next page, leaving the room for the header
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a1da32d..629ae33 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1264,7 +1264,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
+    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && state->currentVarLoc % state->pageSize != state->variableDataHeaderSize)) {
         writeVariablePage(state, buf);
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
         // Move data writing location to the beginning of the next page, leaving the room for the header
-- 
2.43.0


From 4ac16dba3683574c027b22b52df4bb6ee8c381a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 19/44] fix: iterating buffered records with variable data used
 a page from storage once pages had been written

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f614322..04ee36b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2330,7 +2330,7 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
         embedDBFlushVar(state);
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 629ae33..769d062 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1880,7 +1880,7 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
         embedDBFlushVar(state);
     }
-- 
2.43.0


From 9c65959b5c9b430b4dd885b098ef502c10fe14b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 20/44] fix: variable data recovery at an erase block boundary
 handed out the next block without erasing it

---
 lib/Distribution/embedDB.c | 8 ++++++++
 src/embedDB/embedDB.c      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 04ee36b..8769505 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1269,6 +1269,14 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalVariablePageId;
+
+            /* the block we skipped is going to be written next, so it must not still contain the old pages */
+            if (count % blockSize == 0 && state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Failed to erase the next block of variable data pages.\n");
+#endif
+                return -1;
+            }
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 769d062..bf3c175 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -819,6 +819,14 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalVariablePageId;
+
+            /* the block we skipped is going to be written next, so it must not still contain the old pages */
+            if (count % blockSize == 0 && state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Failed to erase the next block of variable data pages.\n");
+#endif
+                return -1;
+            }
         }
     }
 
-- 
2.43.0


From 0c68c6215dfda77569eec9dbfda6c28dd18228e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 21/44] fix: variable data of key 0 was lost on restart when it
 was the only variable data page

---
 lib/Distribution/embedDB.c | 6 ++++--
 src/embedDB/embedDB.c      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8769505..aad3727 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1207,9 +1207,11 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             memcpy(&largestVarRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
             /*
              * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
-             * So we go to the next page to check if it is valid as well.
+             * So we check if there is an item on this page, and otherwise go to the next page to check if it is valid as well.
              */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
+            uint32_t firstItemLength = 0;
+            memcpy(&firstItemLength, (int8_t *)buffer + state->variableDataHeaderSize, sizeof(uint32_t));
+            if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstItemLength != 0) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index bf3c175..0511b33 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -757,9 +757,11 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             memcpy(&largestVarRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
             /*
              * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
-             * So we go to the next page to check if it is valid as well.
+             * So we check if there is an item on this page, and otherwise go to the next page to check if it is valid as well.
              */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
+            uint32_t firstItemLength = 0;
+            memcpy(&firstItemLength, (int8_t *)buffer + state->variableDataHeaderSize, sizeof(uint32_t));
+            if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstItemLength != 0) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
-- 
2.43.0


From f4c994f4f1bc58ffe3e776eca3bafc6f8ccc3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 22/44] fix: recovery used an erased first page as the oldest
 page after a crash between erase and write

---
 lib/Distribution/embedDB.c | 7 +++++--
 src/embedDB/embedDB.c      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index aad3727..0f1746a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -777,6 +777,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    id_t firstValidPhysicalPageId = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
@@ -792,6 +793,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            firstValidPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -824,9 +826,10 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0,
+     * or the start of the second block if the first block was erased.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstValidPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 0511b33..afe732c 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -327,6 +327,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    id_t firstValidPhysicalPageId = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
@@ -342,6 +343,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            firstValidPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -374,9 +376,10 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0,
+     * or the start of the second block if the first block was erased.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstValidPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
-- 
2.43.0


From 3167a096c7471262a947a6f5bcbf132c7ac7a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 23/44] fix: record-level consistency recovery erased pages
 past the end of the data file

---
 lib/Distribution/embedDB.c | 3 ++-
 src/embedDB/embedDB.c      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0f1746a..00035a1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -940,7 +940,8 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        id_t eraseStart = count % state->numDataPages;
+        int8_t eraseSuccess = state->fileInterface->erase(eraseStart, eraseStart + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index afe732c..5a92f16 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -490,7 +490,8 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        id_t eraseStart = count % state->numDataPages;
+        int8_t eraseSuccess = state->fileInterface->erase(eraseStart, eraseStart + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
-- 
2.43.0


From adba52c25cf65439b77fa0a5ed0bee78d138f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 24/44] fix: flushing the last page of an erase block did not
 move the record-level consistency blocks

---
 lib/Distribution/embedDB.c | 6 ++++++
 src/embedDB/embedDB.c      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 00035a1..31ddaed 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2209,6 +2209,12 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
+    /* The next page is in the first record-level consistency block once a block has been filled */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->eraseSizeInPages == 0) {
+        if (shiftRecordLevelConsistencyBlocks(state) != 0)
+            return -1;
+    }
+
     state->fileInterface->flush(state->dataFile);
 
     indexPage(state, pageNum);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5a92f16..523bbd8 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1759,6 +1759,12 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
+    /* The next page is in the first record-level consistency block once a block has been filled */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->eraseSizeInPages == 0) {
+        if (shiftRecordLevelConsistencyBlocks(state) != 0)
+            return -1;
+    }
+
     state->fileInterface->flush(state->dataFile);
 
     indexPage(state, pageNum);
-- 
2.43.0


From 724cfee6f017f8e89fa1559de3ebf95254338288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 25/44] fix: temporary pages were rewritten without an erase
 when erase blocks have a single page

---
 lib/Distribution/embedDB.c | 9 ++++++---
 src/embedDB/embedDB.c      | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 31ddaed..fc6b5c1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2595,11 +2595,14 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+    /* If in pageNum is second page in block, we erase the other record-level consistency block.
+     * When a block is a single page, we erase the page we are about to write as the newest temporary page is in the other block. */
+    if (state->eraseSizeInPages == 1 || state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
         uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
         count_t blockSize = state->eraseSizeInPages;
-        if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
+        if (blockSize == 1) {
+            eraseStartingPage = state->nextRLCPhysicalPageLocation;
+        } else if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 523bbd8..1426ead 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2145,11 +2145,14 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+    /* If in pageNum is second page in block, we erase the other record-level consistency block.
+     * When a block is a single page, we erase the page we are about to write as the newest temporary page is in the other block. */
+    if (state->eraseSizeInPages == 1 || state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
         uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
         count_t blockSize = state->eraseSizeInPages;
-        if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
+        if (blockSize == 1) {
+            eraseStartingPage = state->nextRLCPhysicalPageLocation;
+        } else if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
-- 
2.43.0


From b7ab58170d7e633640107e6b3abf3eda893bd221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 26/44] fix: index recovery mistook erased pages for index
 pages and erased off block boundaries

---
 lib/Distribution/embedDB.c | 58 ++++++++++++++++++++++++++------------
 src/embedDB/embedDB.c      | 58 ++++++++++++++++++++++++++------------
 2 files changed, 80 insertions(+), 36 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index fc6b5c1..9af645e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1127,30 +1127,49 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     /* This will become zero if there is no more to read */
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
-    bool haveWrappedInMemory = false;
-    int count = 0;
+    bool hasData = false;
+    id_t blockSize = state->eraseSizeInPages;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
-    while (moreToRead && count < state->numIndexPages) {
+    /* The first block may have been erased, in which case the oldest page is at the start of the second block */
+    while (moreToRead && physicalIndexPageId <= blockSize) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
-            maxLogicaIndexPageId = logicalIndexPageId;
-            physicalIndexPageId++;
-            moreToRead = !(readIndexPage(state, physicalIndexPageId));
-            count++;
-        } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+        count_t idxCount = EMBEDDB_GET_COUNT(buffer);
+        if (logicalIndexPageId % state->numIndexPages == physicalIndexPageId && idxCount > 0 && idxCount <= state->maxIdxRecordsPerPage) {
+            hasData = true;
             break;
         }
+        physicalIndexPageId += blockSize;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId));
     }
 
-    if (count == 0)
+    if (!hasData)
         return 0;
 
+    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
+    do {
+        maxLogicaIndexPageId = logicalIndexPageId;
+        physicalIndexPageId++;
+        moreToRead = physicalIndexPageId < state->numIndexPages && !(readIndexPage(state, physicalIndexPageId));
+        if (moreToRead)
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+    } while (moreToRead && logicalIndexPageId == maxLogicaIndexPageId + 1);
+
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+
+    /* If we have wrapped, the oldest page is the first one of the first block that is not erased after the newest page */
+    if (moreToRead) {
+        id_t oldestPage = physicalIndexPageId;
+        if (logicalIndexPageId != maxLogicaIndexPageId + 1 - state->numIndexPages) {
+            oldestPage += blockSize - oldestPage % blockSize;
+        }
+        id_t oldestLogicalPageId = maxLogicaIndexPageId + 1 - state->numIndexPages + (oldestPage - physicalIndexPageId);
+        oldestPage %= state->numIndexPages;
+        if (readIndexPage(state, oldestPage) == 0) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (logicalIndexPageId == oldestLogicalPageId)
+                physicalPageIDOfSmallestData = oldestPage;
+        }
     }
     readIndexPage(state, physicalPageIDOfSmallestData);
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
@@ -2680,16 +2699,19 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
     if (state->numAvailIndexPages <= 0) {
-        // Erase index pages to make room for new page
-        int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
+        // Erase index pages to make room for new page. After recovery we may be inside a block whose remaining pages were already erased.
+        id_t numPagesToBlockEnd = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        int8_t eraseResult = 1;
+        if (numPagesToBlockEnd == state->eraseSizeInPages)
+            eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
 #endif
             return -1;
         }
-        state->numAvailIndexPages += state->eraseSizeInPages;
-        state->minIndexPageId += state->eraseSizeInPages;
+        state->numAvailIndexPages += numPagesToBlockEnd;
+        state->minIndexPageId += numPagesToBlockEnd;
     }
 
     /* The read buffer must not keep serving the previous contents of this page */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1426ead..0d081fa 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -677,30 +677,49 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     /* This will become zero if there is no more to read */
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
-    bool haveWrappedInMemory = false;
-    int count = 0;
+    bool hasData = false;
+    id_t blockSize = state->eraseSizeInPages;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
-    while (moreToRead && count < state->numIndexPages) {
+    /* The first block may have been erased, in which case the oldest page is at the start of the second block */
+    while (moreToRead && physicalIndexPageId <= blockSize) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
-            maxLogicaIndexPageId = logicalIndexPageId;
-            physicalIndexPageId++;
-            moreToRead = !(readIndexPage(state, physicalIndexPageId));
-            count++;
-        } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+        count_t idxCount = EMBEDDB_GET_COUNT(buffer);
+        if (logicalIndexPageId % state->numIndexPages == physicalIndexPageId && idxCount > 0 && idxCount <= state->maxIdxRecordsPerPage) {
+            hasData = true;
             break;
         }
+        physicalIndexPageId += blockSize;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId));
     }
 
-    if (count == 0)
+    if (!hasData)
         return 0;
 
+    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
+    do {
+        maxLogicaIndexPageId = logicalIndexPageId;
+        physicalIndexPageId++;
+        moreToRead = physicalIndexPageId < state->numIndexPages && !(readIndexPage(state, physicalIndexPageId));
+        if (moreToRead)
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+    } while (moreToRead && logicalIndexPageId == maxLogicaIndexPageId + 1);
+
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+
+    /* If we have wrapped, the oldest page is the first one of the first block that is not erased after the newest page */
+    if (moreToRead) {
+        id_t oldestPage = physicalIndexPageId;
+        if (logicalIndexPageId != maxLogicaIndexPageId + 1 - state->numIndexPages) {
+            oldestPage += blockSize - oldestPage % blockSize;
+        }
+        id_t oldestLogicalPageId = maxLogicaIndexPageId + 1 - state->numIndexPages + (oldestPage - physicalIndexPageId);
+        oldestPage %= state->numIndexPages;
+        if (readIndexPage(state, oldestPage) == 0) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (logicalIndexPageId == oldestLogicalPageId)
+                physicalPageIDOfSmallestData = oldestPage;
+        }
     }
     readIndexPage(state, physicalPageIDOfSmallestData);
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
@@ -2230,16 +2249,19 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
     if (state->numAvailIndexPages <= 0) {
-        // Erase index pages to make room for new page
-        int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
+        // Erase index pages to make room for new page. After recovery we may be inside a block whose remaining pages were already erased.
+        id_t numPagesToBlockEnd = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        int8_t eraseResult = 1;
+        if (numPagesToBlockEnd == state->eraseSizeInPages)
+            eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
 #endif
             return -1;
         }
-        state->numAvailIndexPages += state->eraseSizeInPages;
-        state->minIndexPageId += state->eraseSizeInPages;
+        state->numAvailIndexPages += numPagesToBlockEnd;
+        state->minIndexPageId += numPagesToBlockEnd;
     }
 
     /* The read buffer must not keep serving the previous contents of this page */
-- 
2.43.0


From 92d248d7f578e11c82eea0c67d9d3bf310fd2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 27/44] fix: pages with more than 127 records were not
 recovered and buffered records past 127 were mishandled

---
 lib/Distribution/embedDB.c | 10 +++++-----
 src/embedDB/embedDB.c      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9af645e..24b88ff 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -785,7 +785,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -895,7 +895,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1990,7 +1990,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -2019,7 +2019,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        int32_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -2097,7 +2097,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    int32_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 0d081fa..c8f972f 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -335,7 +335,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -445,7 +445,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1540,7 +1540,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1569,7 +1569,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        int32_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1647,7 +1647,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    int32_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
-- 
2.43.0


From 9e0ea7476bdbb29ea0cd9f48bb3362ef470b4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 28/44] fix: record and header sizes above 127 bytes overflowed

---
 lib/Distribution/embedDB.h | 4 ++--
 src/embedDB/embedDB.h      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 7e572fd..a69e2b8 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -406,8 +406,8 @@ typedef struct {
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
     int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    count_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    count_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 8d5dfe6..0e2e38b 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -226,8 +226,8 @@ typedef struct {
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
     int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    count_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    count_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
-- 
2.43.0


From 8ee73a8882503f2e743f4fcc5d7cbc4f3f588957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 29/44] fix: the maximum error of a page with keys above 4
 bytes was computed from the write buffer

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 24b88ff..fbeedc8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1451,7 +1451,7 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
         for (int i = 0; i < state->maxRecordsPerPage; i++) {
             // loop all keys in page
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c8f972f..55aad90 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1001,7 +1001,7 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
         for (int i = 0; i < state->maxRecordsPerPage; i++) {
             // loop all keys in page
-- 
2.43.0


From baa9d552fe8b83698fca6b33fa3c69ed0925b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 30/44] fix: distribution read outside the buffer when
 computing the slope of an empty page

---
 lib/Distribution/embedDB.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index fbeedc8..5126cd9 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1376,7 +1376,7 @@ float embedDBCalculateSlope(embedDBState *state, void *buffer) {
     uint32_t slopeX1, slopeX2;
     slopeX1 = 0;
     slopeX2 = EMBEDDB_GET_COUNT(buffer) - 1;
-
+    if(EMBEDDB_GET_COUNT(buffer) == 0) slopeX2 = 0;
     if (state->keySize <= 4) {
         uint32_t slopeY1 = 0, slopeY2 = 0;
 
-- 
2.43.0


From f776cbcdf5417524e21f7a2f91d2bdac0bed5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 31/44] fix: init accepted configurations in which not a single
 record fits on a page

---
 lib/Distribution/embedDB.c | 14 ++++++++++++++
 src/embedDB/embedDB.c      | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5126cd9..5ada099 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -596,6 +596,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0 || state->eraseSizeInPages < 1 || state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key size, erase size or number of buffers is too small.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -648,6 +655,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     state->bufferedIndexPageId = -1;
     state->bufferedVarPage = -1;
 
+    if (state->pageSize < state->headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: At least one record must fit on a page after the header.\n");
+#endif
+        return -1;
+    }
+
     /* Calculate number of records per page */
     state->maxRecordsPerPage = (state->pageSize - state->headerSize) / state->recordSize;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 55aad90..6c06830 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -146,6 +146,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0 || state->eraseSizeInPages < 1 || state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key size, erase size or number of buffers is too small.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -198,6 +205,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     state->bufferedIndexPageId = -1;
     state->bufferedVarPage = -1;
 
+    if (state->pageSize < state->headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: At least one record must fit on a page after the header.\n");
+#endif
+        return -1;
+    }
+
     /* Calculate number of records per page */
     state->maxRecordsPerPage = (state->pageSize - state->headerSize) / state->recordSize;
 
-- 
2.43.0


From e3de66d2d89e3968a0e25cb84c8ba9544b35b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 32/44] fix: failed storage operations were reported as success
 or corrupted the database

---
 lib/Distribution/embedDB.c | 160 +++++++++++++++++++++++++------------
 src/embedDB/embedDB.c      | 160 +++++++++++++++++++++++++------------
 2 files changed, 214 insertions(+), 106 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5ada099..2032e69 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -507,11 +507,13 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
-int8_t addIndexRecord(embedDBState *state, id_t pageNum);
+int8_t reserveIndexRecord(embedDBState *state);
+void addIndexRecord(embedDBState *state, id_t pageNum);
 void *findIndexRecord(embedDBState *state, id_t dataPage);
 void embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
+void removeLastVarRecord(embedDBState *state, id_t recordVarLoc);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
@@ -1504,12 +1506,12 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Adds the bitmap of the data page in the write buffer to the index write buffer
+ * @brief	Makes sure that the index write buffer has space for another record. Called before the data page
+ *          is written, so that an error leaves the database unchanged.
  * @param	state	embedDB algorithm state structure
- * @param	pageNum	Logical page id of the data page
  * @return	Return 0 if success. Non-zero value if error.
  */
-int8_t addIndexRecord(embedDBState *state, id_t pageNum) {
+int8_t reserveIndexRecord(embedDBState *state) {
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
     if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
         /* Save index page */
@@ -1517,7 +1519,16 @@ int8_t addIndexRecord(embedDBState *state, id_t pageNum) {
             return -1;
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
+    return 0;
+}
 
+/**
+ * @brief	Adds the bitmap of the data page in the write buffer to the index write buffer
+ * @param	state	embedDB algorithm state structure
+ * @param	pageNum	Logical page id of the data page
+ */
+void addIndexRecord(embedDBState *state, id_t pageNum) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
     count_t idxcount = EMBEDDB_GET_COUNT(buf);
     if (idxcount == 0) {
         /* Add page id to minimum value spot in page */
@@ -1528,7 +1539,6 @@ int8_t addIndexRecord(embedDBState *state, id_t pageNum) {
     /* Copy record onto index page */
     void *bm = EMBEDDB_GET_BITMAP(state->buffer);
     memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
-    return 0;
 }
 
 /**
@@ -1584,7 +1594,12 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Failed to read the last data page. Insert Failed.\n");
+#endif
+                return -1;
+            }
             /* The last page may be only partially full if it was written by a flush */
             previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
@@ -1599,24 +1614,32 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        if (state->indexFile != NULL && reserveIndexRecord(state) != 0)
+            return -1;
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1)
+            return -1;
 
         indexPage(state, pageNum);
 
         /* Save record in index file */
-        if (state->indexFile != NULL) {
-            if (addIndexRecord(state, pageNum) != 0)
-                return -1;
-        }
+        if (state->indexFile != NULL)
+            addIndexRecord(state, pageNum);
 
         updateMaxiumError(state, state->buffer);
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
+    }
+
+    /* The next page is in the first record-level consistency block once a block has been filled */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
+        /* move record-level consistency blocks */
+        if (shiftRecordLevelConsistencyBlocks(state) != 0)
+            return -1;
     }
 
     /* Copy record onto page */
@@ -1674,11 +1697,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
-        }
         return writeTemporaryPage(state, state->buffer);
     }
 
@@ -1762,7 +1780,8 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && state->currentVarLoc % state->pageSize != state->variableDataHeaderSize)) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1)
+            return -1;
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
         // Move data writing location to the beginning of the next page, leaving the room for the header
         state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
@@ -1775,6 +1794,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     // Perform the regular insert
+    id_t recordVarLoc = state->currentVarLoc;
     state->recordHasVarData = 1;
     int8_t r = embedDBPut(state, key, data);
     // A following embedDBPut must not be linked to the variable data
@@ -1783,10 +1803,6 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return r;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
-    }
-
     // Update the header to include the maximum key value stored on this page
     memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
 
@@ -1796,7 +1812,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1) {
+            removeLastVarRecord(state, recordVarLoc);
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1815,7 +1834,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == -1) {
+                removeLastVarRecord(state, recordVarLoc);
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1824,13 +1846,35 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         }
     }
 
+    if (state->minVarRecordId == UINT64_MAX) {
+        memcpy(&state->minVarRecordId, key, state->keySize);
+    }
+
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+        return embedDBFlushVar(state);
     }
 
     return 0;
 }
 
+/**
+ * @brief	Removes the record that was just inserted because its variable data could not be written.
+ * @param	state			embedDB algorithm state structure
+ * @param	recordVarLoc	Location at which the variable data of the record starts
+ */
+void removeLastVarRecord(embedDBState *state, id_t recordVarLoc) {
+    EMBEDDB_GET_COUNT(state->buffer) -= 1;
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) > 0)
+        writeTemporaryPage(state, state->buffer);
+
+    /* The page that could not be written stays in the buffer, without the data of this record */
+    id_t pageStart = state->currentVarLoc - state->pageSize;
+    if (recordVarLoc >= pageStart)
+        state->currentVarLoc = recordVarLoc;
+    else
+        state->currentVarLoc = pageStart + state->variableDataHeaderSize;
+}
+
 /**
  * @brief	Given a key, estimates the location of the key within the node.
  * @param	state	embedDB algorithm state structure
@@ -2116,7 +2160,8 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0)
+            return -1;
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -2234,6 +2279,20 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    // Flush var data page before the records that refer to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
+    if (EMBEDDB_USING_INDEX(state->parameters) && reserveIndexRecord(state) != 0)
+        return -1;
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -2242,21 +2301,24 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
+    state->fileInterface->flush(state->dataFile);
+
+    indexPage(state, pageNum);
+
+    if (EMBEDDB_USING_INDEX(state->parameters))
+        addIndexRecord(state, pageNum);
+
+    /* Reinitialize buffer */
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+
     /* The next page is in the first record-level consistency block once a block has been filled */
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->eraseSizeInPages == 0) {
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
         if (shiftRecordLevelConsistencyBlocks(state) != 0)
             return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
-
-    indexPage(state, pageNum);
-
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        if (addIndexRecord(state, pageNum) != 0)
-            return -1;
-
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
 #ifdef PRINT_ERRORS
@@ -2270,20 +2332,6 @@ int8_t embedDBFlush(embedDBState *state) {
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
-
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
-
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
     return 0;
 }
 
@@ -2385,7 +2433,8 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     void *outputBuffer = (int8_t *)state->buffer;
     if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0)
+            return 0;
     }
 
     // Get the vardata address from the record
@@ -2522,7 +2571,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #ifdef PRINT_ERRORS
                 printf("ERROR: Couldn't read variable data page %d\n", pageNum);
 #endif
-                return 0;
+                return amtRead;
             }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
@@ -2560,7 +2609,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2599,6 +2648,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2644,8 +2694,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2706,7 +2756,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2741,6 +2791,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
@@ -2855,6 +2906,7 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    state->bufferedPageId = (id_t)-1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2880,6 +2932,7 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    state->bufferedIndexPageId = (id_t)-1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2905,6 +2958,7 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
     // Read in one page worth of data
+    state->bufferedVarPage = (id_t)-1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 6c06830..1bb72a5 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -57,11 +57,13 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
-int8_t addIndexRecord(embedDBState *state, id_t pageNum);
+int8_t reserveIndexRecord(embedDBState *state);
+void addIndexRecord(embedDBState *state, id_t pageNum);
 void *findIndexRecord(embedDBState *state, id_t dataPage);
 void embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
+void removeLastVarRecord(embedDBState *state, id_t recordVarLoc);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
@@ -1054,12 +1056,12 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Adds the bitmap of the data page in the write buffer to the index write buffer
+ * @brief	Makes sure that the index write buffer has space for another record. Called before the data page
+ *          is written, so that an error leaves the database unchanged.
  * @param	state	embedDB algorithm state structure
- * @param	pageNum	Logical page id of the data page
  * @return	Return 0 if success. Non-zero value if error.
  */
-int8_t addIndexRecord(embedDBState *state, id_t pageNum) {
+int8_t reserveIndexRecord(embedDBState *state) {
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
     if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
         /* Save index page */
@@ -1067,7 +1069,16 @@ int8_t addIndexRecord(embedDBState *state, id_t pageNum) {
             return -1;
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
+    return 0;
+}
 
+/**
+ * @brief	Adds the bitmap of the data page in the write buffer to the index write buffer
+ * @param	state	embedDB algorithm state structure
+ * @param	pageNum	Logical page id of the data page
+ */
+void addIndexRecord(embedDBState *state, id_t pageNum) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
     count_t idxcount = EMBEDDB_GET_COUNT(buf);
     if (idxcount == 0) {
         /* Add page id to minimum value spot in page */
@@ -1078,7 +1089,6 @@ int8_t addIndexRecord(embedDBState *state, id_t pageNum) {
     /* Copy record onto index page */
     void *bm = EMBEDDB_GET_BITMAP(state->buffer);
     memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
-    return 0;
 }
 
 /**
@@ -1134,7 +1144,12 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Failed to read the last data page. Insert Failed.\n");
+#endif
+                return -1;
+            }
             /* The last page may be only partially full if it was written by a flush */
             previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
@@ -1149,24 +1164,32 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        if (state->indexFile != NULL && reserveIndexRecord(state) != 0)
+            return -1;
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1)
+            return -1;
 
         indexPage(state, pageNum);
 
         /* Save record in index file */
-        if (state->indexFile != NULL) {
-            if (addIndexRecord(state, pageNum) != 0)
-                return -1;
-        }
+        if (state->indexFile != NULL)
+            addIndexRecord(state, pageNum);
 
         updateMaxiumError(state, state->buffer);
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
+    }
+
+    /* The next page is in the first record-level consistency block once a block has been filled */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
+        /* move record-level consistency blocks */
+        if (shiftRecordLevelConsistencyBlocks(state) != 0)
+            return -1;
     }
 
     /* Copy record onto page */
@@ -1224,11 +1247,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
-        }
         return writeTemporaryPage(state, state->buffer);
     }
 
@@ -1312,7 +1330,8 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && state->currentVarLoc % state->pageSize != state->variableDataHeaderSize)) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1)
+            return -1;
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
         // Move data writing location to the beginning of the next page, leaving the room for the header
         state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
@@ -1325,6 +1344,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     // Perform the regular insert
+    id_t recordVarLoc = state->currentVarLoc;
     state->recordHasVarData = 1;
     int8_t r = embedDBPut(state, key, data);
     // A following embedDBPut must not be linked to the variable data
@@ -1333,10 +1353,6 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return r;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
-    }
-
     // Update the header to include the maximum key value stored on this page
     memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
 
@@ -1346,7 +1362,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1) {
+            removeLastVarRecord(state, recordVarLoc);
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1365,7 +1384,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == -1) {
+                removeLastVarRecord(state, recordVarLoc);
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1374,13 +1396,35 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         }
     }
 
+    if (state->minVarRecordId == UINT64_MAX) {
+        memcpy(&state->minVarRecordId, key, state->keySize);
+    }
+
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+        return embedDBFlushVar(state);
     }
 
     return 0;
 }
 
+/**
+ * @brief	Removes the record that was just inserted because its variable data could not be written.
+ * @param	state			embedDB algorithm state structure
+ * @param	recordVarLoc	Location at which the variable data of the record starts
+ */
+void removeLastVarRecord(embedDBState *state, id_t recordVarLoc) {
+    EMBEDDB_GET_COUNT(state->buffer) -= 1;
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) > 0)
+        writeTemporaryPage(state, state->buffer);
+
+    /* The page that could not be written stays in the buffer, without the data of this record */
+    id_t pageStart = state->currentVarLoc - state->pageSize;
+    if (recordVarLoc >= pageStart)
+        state->currentVarLoc = recordVarLoc;
+    else
+        state->currentVarLoc = pageStart + state->variableDataHeaderSize;
+}
+
 /**
  * @brief	Given a key, estimates the location of the key within the node.
  * @param	state	embedDB algorithm state structure
@@ -1666,7 +1710,8 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0)
+            return -1;
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -1784,6 +1829,20 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    // Flush var data page before the records that refer to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
+    if (EMBEDDB_USING_INDEX(state->parameters) && reserveIndexRecord(state) != 0)
+        return -1;
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -1792,21 +1851,24 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
+    state->fileInterface->flush(state->dataFile);
+
+    indexPage(state, pageNum);
+
+    if (EMBEDDB_USING_INDEX(state->parameters))
+        addIndexRecord(state, pageNum);
+
+    /* Reinitialize buffer */
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+
     /* The next page is in the first record-level consistency block once a block has been filled */
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->eraseSizeInPages == 0) {
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
         if (shiftRecordLevelConsistencyBlocks(state) != 0)
             return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
-
-    indexPage(state, pageNum);
-
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        if (addIndexRecord(state, pageNum) != 0)
-            return -1;
-
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
 #ifdef PRINT_ERRORS
@@ -1820,20 +1882,6 @@ int8_t embedDBFlush(embedDBState *state) {
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
-
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
-
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
     return 0;
 }
 
@@ -1935,7 +1983,8 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     void *outputBuffer = (int8_t *)state->buffer;
     if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0)
+            return 0;
     }
 
     // Get the vardata address from the record
@@ -2072,7 +2121,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #ifdef PRINT_ERRORS
                 printf("ERROR: Couldn't read variable data page %d\n", pageNum);
 #endif
-                return 0;
+                return amtRead;
             }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
@@ -2110,7 +2159,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2149,6 +2198,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2194,8 +2244,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2256,7 +2306,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2291,6 +2341,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
@@ -2405,6 +2456,7 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    state->bufferedPageId = (id_t)-1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2430,6 +2482,7 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    state->bufferedIndexPageId = (id_t)-1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2455,6 +2508,7 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
     // Read in one page worth of data
+    state->bufferedVarPage = (id_t)-1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
-- 
2.43.0


From f53512b02446adcb41fd0a72632e73065113f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 33/44] fix: init left files open and memory allocated when
 refusing a configuration and accepted unusable ones

---
 lib/Distribution/embedDB.c | 141 ++++++++++++++++++++++++-------------
 src/embedDB/embedDB.c      | 141 ++++++++++++++++++++++++-------------
 2 files changed, 186 insertions(+), 96 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2032e69..91a535f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -510,6 +510,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
 int8_t reserveIndexRecord(embedDBState *state);
 void addIndexRecord(embedDBState *state, id_t pageNum);
 void *findIndexRecord(embedDBState *state, id_t dataPage);
+void embedDBInitFailed(embedDBState *state, bool dataOpen, bool indexOpen);
 void embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
@@ -625,6 +626,24 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         if (state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
+#endif
+            return -1;
+        }
+        if (state->numVarPages < state->eraseSizeInPages * 2 || state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Variable data needs a file with at least two erase blocks.\n");
+#endif
+            return -1;
+        }
+        if (state->bufferSizeInBlocks < 4 + (EMBEDDB_USING_INDEX(state->parameters) ? 2 : 0)) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
+#endif
+            return -1;
+        }
+        if (state->pageSize < state->keySize + sizeof(id_t) + sizeof(uint32_t)) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Variable data does not fit on a page after the header.\n");
 #endif
             return -1;
         }
@@ -644,10 +663,48 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
+        if (state->numIndexPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Minimum index space is two erase blocks\n");
+#endif
+            return -1;
+        }
+        if (state->indexFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: No index file provided!\n");
+#endif
+            return -1;
+        }
+        if (state->bufferSizeInBlocks < 4) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
+#endif
+            return -1;
+        }
+        if (state->pageSize < EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: At least one bitmap must fit on an index page after the header.\n");
+#endif
+            return -1;
+        }
+    }
+
+    if (state->dataFile == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No data file provided!\n");
+#endif
+        return -1;
     }
 
-    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters)) {
+        if (state->bitmapSize < 1) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The bitmap size is too small.\n");
+#endif
+            return -1;
+        }
         state->headerSize += state->bitmapSize;
+    }
 
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
@@ -697,41 +754,32 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        embedDBInitFailed(state, false, false);
         return dataInitResult;
     }
 
     /* Allocate file and buffer for index */
     int8_t indexInitResult = 0;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
-        if (state->bufferSizeInBlocks < 4) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
-#endif
-            return -1;
-        } else {
-            indexInitResult = embedDBInitIndex(state);
-        }
+        indexInitResult = embedDBInitIndex(state);
     } else {
         state->indexFile = NULL;
         state->numIndexPages = 0;
     }
 
     if (indexInitResult != 0) {
+        embedDBInitFailed(state, true, false);
         return indexInitResult;
     }
 
     /* Allocate file and buffer for variable data */
     int8_t varDataInitResult = 0;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        if (state->bufferSizeInBlocks < 4 + (EMBEDDB_USING_INDEX(state->parameters) ? 2 : 0)) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
-#endif
-            return -1;
-        } else {
-            varDataInitResult = embedDBInitVarData(state);
+        varDataInitResult = embedDBInitVarData(state);
+        if (varDataInitResult != 0) {
+            embedDBInitFailed(state, true, state->indexFile != NULL);
+            return varDataInitResult;
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
@@ -741,19 +789,30 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     return 0;
 }
 
+/**
+ * @brief   Releases everything that was set up before embedDBInit failed.
+ * @param   state       embedDB algorithm state structure
+ * @param   dataOpen    Whether the data file is open
+ * @param   indexOpen   Whether the index file is open
+ */
+void embedDBInitFailed(embedDBState *state, bool dataOpen, bool indexOpen) {
+    if (dataOpen)
+        state->fileInterface->close(state->dataFile);
+    if (indexOpen)
+        state->fileInterface->close(state->indexFile);
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
+        splineClose(state->spl);
+        free(state->spl);
+        state->spl = NULL;
+    }
+}
+
 int8_t embedDBInitData(embedDBState *state) {
     state->nextDataPageId = 0;
     state->nextDataPageId = 0;
     state->numAvailDataPages = state->numDataPages;
     state->minDataPageId = 0;
 
-    if (state->dataFile == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: No data file provided!\n");
-#endif
-        return -1;
-    }
-
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
         state->numAvailDataPages -= (state->eraseSizeInPages * 2);
         state->nextRLCPhysicalPageLocation = state->eraseSizeInPages;
@@ -765,11 +824,15 @@ int8_t embedDBInitData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
+            int8_t result = 0;
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-                return embedDBInitDataFromFileWithRecordLevelConsistency(state);
+                result = embedDBInitDataFromFileWithRecordLevelConsistency(state);
             } else {
-                return embedDBInitDataFromFile(state);
+                result = embedDBInitDataFromFile(state);
             }
+            if (result != 0)
+                state->fileInterface->close(state->dataFile);
+            return result;
         }
     } else {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
@@ -1096,27 +1159,6 @@ int8_t embedDBInitIndex(embedDBState *state) {
     state->numAvailIndexPages = state->numIndexPages;
     state->minIndexPageId = 0;
 
-    if (state->numIndexPages < state->eraseSizeInPages * 2) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Minimum index space is two erase blocks\n");
-#endif
-        return -1;
-    }
-
-    if (state->numIndexPages % state->eraseSizeInPages != 0) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Ensure index space is a multiple of erase block size\n");
-#endif
-        return -1;
-    }
-
-    if (state->indexFile == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: No index file provided!\n");
-#endif
-        return -1;
-    }
-
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
@@ -1207,7 +1249,10 @@ int8_t embedDBInitVarData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-            return embedDBInitVarDataFromFile(state);
+            int8_t result = embedDBInitVarDataFromFile(state);
+            if (result != 0)
+                state->fileInterface->close(state->varFile);
+            return result;
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1bb72a5..bac1194 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -60,6 +60,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
 int8_t reserveIndexRecord(embedDBState *state);
 void addIndexRecord(embedDBState *state, id_t pageNum);
 void *findIndexRecord(embedDBState *state, id_t dataPage);
+void embedDBInitFailed(embedDBState *state, bool dataOpen, bool indexOpen);
 void embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
@@ -175,6 +176,24 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         if (state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
+#endif
+            return -1;
+        }
+        if (state->numVarPages < state->eraseSizeInPages * 2 || state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Variable data needs a file with at least two erase blocks.\n");
+#endif
+            return -1;
+        }
+        if (state->bufferSizeInBlocks < 4 + (EMBEDDB_USING_INDEX(state->parameters) ? 2 : 0)) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
+#endif
+            return -1;
+        }
+        if (state->pageSize < state->keySize + sizeof(id_t) + sizeof(uint32_t)) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Variable data does not fit on a page after the header.\n");
 #endif
             return -1;
         }
@@ -194,10 +213,48 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
+        if (state->numIndexPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Minimum index space is two erase blocks\n");
+#endif
+            return -1;
+        }
+        if (state->indexFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: No index file provided!\n");
+#endif
+            return -1;
+        }
+        if (state->bufferSizeInBlocks < 4) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
+#endif
+            return -1;
+        }
+        if (state->pageSize < EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: At least one bitmap must fit on an index page after the header.\n");
+#endif
+            return -1;
+        }
+    }
+
+    if (state->dataFile == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No data file provided!\n");
+#endif
+        return -1;
     }
 
-    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters)) {
+        if (state->bitmapSize < 1) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The bitmap size is too small.\n");
+#endif
+            return -1;
+        }
         state->headerSize += state->bitmapSize;
+    }
 
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
@@ -247,41 +304,32 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        embedDBInitFailed(state, false, false);
         return dataInitResult;
     }
 
     /* Allocate file and buffer for index */
     int8_t indexInitResult = 0;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
-        if (state->bufferSizeInBlocks < 4) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
-#endif
-            return -1;
-        } else {
-            indexInitResult = embedDBInitIndex(state);
-        }
+        indexInitResult = embedDBInitIndex(state);
     } else {
         state->indexFile = NULL;
         state->numIndexPages = 0;
     }
 
     if (indexInitResult != 0) {
+        embedDBInitFailed(state, true, false);
         return indexInitResult;
     }
 
     /* Allocate file and buffer for variable data */
     int8_t varDataInitResult = 0;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        if (state->bufferSizeInBlocks < 4 + (EMBEDDB_USING_INDEX(state->parameters) ? 2 : 0)) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
-#endif
-            return -1;
-        } else {
-            varDataInitResult = embedDBInitVarData(state);
+        varDataInitResult = embedDBInitVarData(state);
+        if (varDataInitResult != 0) {
+            embedDBInitFailed(state, true, state->indexFile != NULL);
+            return varDataInitResult;
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
@@ -291,19 +339,30 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     return 0;
 }
 
+/**
+ * @brief   Releases everything that was set up before embedDBInit failed.
+ * @param   state       embedDB algorithm state structure
+ * @param   dataOpen    Whether the data file is open
+ * @param   indexOpen   Whether the index file is open
+ */
+void embedDBInitFailed(embedDBState *state, bool dataOpen, bool indexOpen) {
+    if (dataOpen)
+        state->fileInterface->close(state->dataFile);
+    if (indexOpen)
+        state->fileInterface->close(state->indexFile);
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
+        splineClose(state->spl);
+        free(state->spl);
+        state->spl = NULL;
+    }
+}
+
 int8_t embedDBInitData(embedDBState *state) {
     state->nextDataPageId = 0;
     state->nextDataPageId = 0;
     state->numAvailDataPages = state->numDataPages;
     state->minDataPageId = 0;
 
-    if (state->dataFile == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: No data file provided!\n");
-#endif
-        return -1;
-    }
-
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
         state->numAvailDataPages -= (state->eraseSizeInPages * 2);
         state->nextRLCPhysicalPageLocation = state->eraseSizeInPages;
@@ -315,11 +374,15 @@ int8_t embedDBInitData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
+            int8_t result = 0;
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-                return embedDBInitDataFromFileWithRecordLevelConsistency(state);
+                result = embedDBInitDataFromFileWithRecordLevelConsistency(state);
             } else {
-                return embedDBInitDataFromFile(state);
+                result = embedDBInitDataFromFile(state);
             }
+            if (result != 0)
+                state->fileInterface->close(state->dataFile);
+            return result;
         }
     } else {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
@@ -646,27 +709,6 @@ int8_t embedDBInitIndex(embedDBState *state) {
     state->numAvailIndexPages = state->numIndexPages;
     state->minIndexPageId = 0;
 
-    if (state->numIndexPages < state->eraseSizeInPages * 2) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Minimum index space is two erase blocks\n");
-#endif
-        return -1;
-    }
-
-    if (state->numIndexPages % state->eraseSizeInPages != 0) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Ensure index space is a multiple of erase block size\n");
-#endif
-        return -1;
-    }
-
-    if (state->indexFile == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: No index file provided!\n");
-#endif
-        return -1;
-    }
-
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
@@ -757,7 +799,10 @@ int8_t embedDBInitVarData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-            return embedDBInitVarDataFromFile(state);
+            int8_t result = embedDBInitVarDataFromFile(state);
+            if (result != 0)
+                state->fileInterface->close(state->varFile);
+            return result;
         }
     }
 
-- 
2.43.0


From b9b43fee7198b34388ab219b6120217961fbcf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 34/44] fix: closing an aggregate operator dropped its input,
 so freeing the operator chain leaked it

---
 lib/Distribution/embedDB.c            | 1 -
 src/query-interface/advancedQueries.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 91a535f..f6a19b2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3799,7 +3799,6 @@ int8_t nextAggregate(embedDBOperator *op) {
 
 void closeAggregate(embedDBOperator *op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo *)op->state)->lastRecordBuffer);
     free(op->state);
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a513a9..fb35ff5 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -602,7 +602,6 @@ int8_t nextAggregate(embedDBOperator* op) {
 
 void closeAggregate(embedDBOperator* op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo*)op->state)->lastRecordBuffer);
     free(op->state);
-- 
2.43.0


From 83fec1248b8a4b524e783c0aa1693b10be08f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 35/44] fix: SUM and AVG misread the sign of signed columns of
 5 to 7 bytes

---
 lib/Distribution/embedDB.c            | 4 ++--
 src/query-interface/advancedQueries.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f6a19b2..b8d10f1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4057,7 +4057,7 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = (uint64_t)val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -4260,7 +4260,7 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = (uint64_t)val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index fb35ff5..a1daa49 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -860,7 +860,7 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = (uint64_t)val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -1063,7 +1063,7 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = (uint64_t)val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-- 
2.43.0


From 857b37e5bd9869544d7233cf3bccc3a97507e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 36/44] fix: the 32-bit and 64-bit comparators overflowed for
 values far apart

---
 lib/Distribution/embedDB.c           | 13 +++++++------
 lib/EmbedDB-Utility/embedDBUtility.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b8d10f1..7a43e68 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4619,19 +4619,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 2360220..03883dd 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -261,19 +261,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
-- 
2.43.0


From 7ef58c0bbcaeb5d31b52cf16bfc1da7799c2dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 37/44] fix: refused schemas leaked memory and negative column
 sizes were accepted

---
 lib/Distribution/embedDB.c   | 6 +++---
 src/query-interface/schema.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7a43e68..cd67334 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3096,15 +3096,14 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
     embedDBSchema *schema = malloc(sizeof(embedDBSchema));
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
     schema->numCols = numCols;
-    uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
-        totalSize += colSize;
+        int8_t colSize = colSizes[i];
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -3115,6 +3114,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 5790949..0dcb62b 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -54,15 +54,14 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
     embedDBSchema* schema = malloc(sizeof(embedDBSchema));
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
     schema->numCols = numCols;
-    uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
-        totalSize += colSize;
+        int8_t colSize = colSizes[i];
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -73,6 +72,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
-- 
2.43.0


From d4682f643c10e3638f83b1cfcbcff6cc9d78b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 38/44] fix: the desktop file interface wrapped offsets at 4
 GiB and ignored failed seeks

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 47c0812..702bffd 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -24,13 +24,15 @@ void tearDownFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageSize * pageNum, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageNum * pageSize, SEEK_SET) != 0)
+        return 0;
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageNum * pageSize, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageNum * pageSize, SEEK_SET) != 0)
+        return 0;
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
 
@@ -41,17 +43,17 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
     /* Seek to position in file */
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    int seekResult = fseek(fileInfo->file, startPage * pageSize, SEEK_SET);
+    int seekResult = fseek(fileInfo->file, (long)startPage * pageSize, SEEK_SET);
 
     if (seekResult != 0) {
 #ifdef PRINT_ERRORS
         printf("Error seeking in file.\n");
 #endif
-        return seekResult;
+        return 0;
     }
 
     /* Setup data to insert */
-    size_t memorySize = (endPage - startPage) * pageSize;
+    size_t memorySize = (size_t)(endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
     memset(buffer, 1, memorySize);
 
-- 
2.43.0


From 009869a72376d6f0e86cd260c40c3c475194c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 39/44] fix: the SD file interface reported failed page writes
 and reads as success

---
 lib/SD-File-Interface/SDFileInterface.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 58da460..eba3982 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -59,7 +59,8 @@ void tearDownSDFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET);
+    if (sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET) == -1)
+        return 0;
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
 }
 
@@ -70,7 +71,7 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
     if (fileSize < pageNum * pageSize) {
         int8_t seekSuccess = sd_fseek(fileInfo->sdFile, fileSize, SEEK_SET);
         if (seekSuccess == -1) {
-            return -1;
+            return 0;
         }
         size_t currentSize = fileSize;
         uint32_t max = UINT32_MAX;
@@ -78,18 +79,15 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
         while (currentSize < requiredSize) {
             writeSuccess = sd_fwrite(&max, sizeof(uint32_t), 1, fileInfo->sdFile);
             if (writeSuccess == 0)
-                return -1;
+                return 0;
             currentSize += 4;
         }
     }
     int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
     if (seekSuccess == -1) {
-        return -1;
-    }
-    int8_t writeSuccess = sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
-    if (seekSuccess == -1)
         return 0;
-    return 1;
+    }
+    return sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
 }
 
 int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
-- 
2.43.0


From 30c8f4436dd90904ef016df5ae8e0ca4effece7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 40/44] fix: iterators returned newer records again after their
 page was overwritten

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index cd67334..0b660db 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2390,6 +2390,11 @@ int8_t embedDBFlush(embedDBState *state) {
  */
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
+    /* Continue with the oldest stored page if the iterator's page was overwritten since the last call */
+    if (it->nextDataPage < state->minDataPageId) {
+        it->nextDataPage = state->minDataPageId;
+        it->nextDataRec = 0;
+    }
     while (1) {
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index bac1194..dd82b27 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1940,6 +1940,11 @@ int8_t embedDBFlush(embedDBState *state) {
  */
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
+    /* Continue with the oldest stored page if the iterator's page was overwritten since the last call */
+    if (it->nextDataPage < state->minDataPageId) {
+        it->nextDataPage = state->minDataPageId;
+        it->nextDataRec = 0;
+    }
     while (1) {
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
-- 
2.43.0


From dcf2eada4662429845b79108c39fccea9706aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 41/44] fix: recovery read erased variable data pages when the
 first block was erased last

---
 lib/Distribution/embedDB.c | 7 +++++--
 src/embedDB/embedDB.c      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0b660db..eb2d943 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1275,6 +1275,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    id_t physicalPageIDOfFirstData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
     /* This will equal 0 if there are no pages to read */
@@ -1298,6 +1299,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstItemLength != 0) {
                 i = 2;
                 hasData = true;
+                physicalPageIDOfFirstData = physicalVariablePageId;
                 maxLogicalVariablePageId = logicalVariablePageId;
             }
             physicalVariablePageId++;
@@ -1330,9 +1332,10 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0,
+     * or the first block was erased and the smallest key is on the first page after it.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = physicalPageIDOfFirstData;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index dd82b27..7524b3e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -825,6 +825,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    id_t physicalPageIDOfFirstData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
     /* This will equal 0 if there are no pages to read */
@@ -848,6 +849,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstItemLength != 0) {
                 i = 2;
                 hasData = true;
+                physicalPageIDOfFirstData = physicalVariablePageId;
                 maxLogicalVariablePageId = logicalVariablePageId;
             }
             physicalVariablePageId++;
@@ -880,9 +882,10 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0,
+     * or the first block was erased and the smallest key is on the first page after it.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = physicalPageIDOfFirstData;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
-- 
2.43.0


From 7ce703a54fadc70cd0d51259c5f7525707f23dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 42/44] fix: record-level consistency stored a record before
 its variable data

---
 lib/Distribution/embedDB.c | 11 ++++++++---
 src/embedDB/embedDB.c      | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index eb2d943..3654524 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1745,6 +1745,9 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        /* embedDBPutVar writes the page once the variable data the record refers to is in storage */
+        if (EMBEDDB_USING_VDATA(state->parameters) && state->recordHasVarData)
+            return 0;
         return writeTemporaryPage(state, state->buffer);
     }
 
@@ -1899,7 +1902,11 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        return embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            EMBEDDB_GET_COUNT(state->buffer) -= 1;
+            return -1;
+        }
+        return writeTemporaryPage(state, state->buffer);
     }
 
     return 0;
@@ -1912,8 +1919,6 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
  */
 void removeLastVarRecord(embedDBState *state, id_t recordVarLoc) {
     EMBEDDB_GET_COUNT(state->buffer) -= 1;
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) > 0)
-        writeTemporaryPage(state, state->buffer);
 
     /* The page that could not be written stays in the buffer, without the data of this record */
     id_t pageStart = state->currentVarLoc - state->pageSize;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7524b3e..c7e5542 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1295,6 +1295,9 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        /* embedDBPutVar writes the page once the variable data the record refers to is in storage */
+        if (EMBEDDB_USING_VDATA(state->parameters) && state->recordHasVarData)
+            return 0;
         return writeTemporaryPage(state, state->buffer);
     }
 
@@ -1449,7 +1452,11 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        return embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            EMBEDDB_GET_COUNT(state->buffer) -= 1;
+            return -1;
+        }
+        return writeTemporaryPage(state, state->buffer);
     }
 
     return 0;
@@ -1462,8 +1469,6 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
  */
 void removeLastVarRecord(embedDBState *state, id_t recordVarLoc) {
     EMBEDDB_GET_COUNT(state->buffer) -= 1;
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) > 0)
-        writeTemporaryPage(state, state->buffer);
 
     /* The page that could not be written stays in the buffer, without the data of this record */
     id_t pageStart = state->currentVarLoc - state->pageSize;
-- 
2.43.0


From bcf0450d5271574ee27294e4ee30340aa740bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:41 +0000
Subject: [PATCH 43/44] fix: recovery ignored failed reads and continued with
 an undefined oldest page

---
 lib/Distribution/embedDB.c | 56 ++++++++++++++++++++++++++++++--------
 src/embedDB/embedDB.c      | 56 ++++++++++++++++++++++++++++++--------
 2 files changed, 90 insertions(+), 22 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3654524..5697a9c 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -511,7 +511,7 @@ int8_t reserveIndexRecord(embedDBState *state);
 void addIndexRecord(embedDBState *state, id_t pageNum);
 void *findIndexRecord(embedDBState *state, id_t dataPage);
 void embedDBInitFailed(embedDBState *state, bool dataOpen, bool indexOpen);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 void removeLastVarRecord(embedDBState *state, id_t recordVarLoc);
@@ -943,15 +943,25 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the oldest data page during recovery.\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the newest data page during recovery.\n");
+#endif
+        return -1;
+    }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -1116,29 +1126,45 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the oldest data page during recovery.\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the newest data page during recovery.\n");
+#endif
+        return -1;
+    }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read a data page while rebuilding the spline.\n");
+#endif
+            return -1;
+        }
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
@@ -1162,7 +1188,10 @@ int8_t embedDBInitIndex(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
-            return embedDBInitIndexFromFile(state);
+            int8_t result = embedDBInitIndexFromFile(state);
+            if (result != 0)
+                state->fileInterface->close(state->indexFile);
+            return result;
         }
     }
 
@@ -1229,7 +1258,12 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
                 physicalPageIDOfSmallestData = oldestPage;
         }
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the oldest index page during recovery.\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c7e5542..fb90a4f 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -61,7 +61,7 @@ int8_t reserveIndexRecord(embedDBState *state);
 void addIndexRecord(embedDBState *state, id_t pageNum);
 void *findIndexRecord(embedDBState *state, id_t dataPage);
 void embedDBInitFailed(embedDBState *state, bool dataOpen, bool indexOpen);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 void removeLastVarRecord(embedDBState *state, id_t recordVarLoc);
@@ -493,15 +493,25 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the oldest data page during recovery.\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the newest data page during recovery.\n");
+#endif
+        return -1;
+    }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -666,29 +676,45 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the oldest data page during recovery.\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the newest data page during recovery.\n");
+#endif
+        return -1;
+    }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read a data page while rebuilding the spline.\n");
+#endif
+            return -1;
+        }
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
@@ -712,7 +738,10 @@ int8_t embedDBInitIndex(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
-            return embedDBInitIndexFromFile(state);
+            int8_t result = embedDBInitIndexFromFile(state);
+            if (result != 0)
+                state->fileInterface->close(state->indexFile);
+            return result;
         }
     }
 
@@ -779,7 +808,12 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
                 physicalPageIDOfSmallestData = oldestPage;
         }
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to read the oldest index page during recovery.\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
-- 
2.43.0


From 69cc5006de5214a01d4b739ec5cf19030f9ab386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 44/44] fix: embedDBFlush ignored failed flushes and left
 filled variable data pages unflushed

---
 lib/Distribution/embedDB.c | 66 ++++++++++++++++++++++----------------
 src/embedDB/embedDB.c      | 66 ++++++++++++++++++++++----------------
 2 files changed, 78 insertions(+), 54 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5697a9c..4d15307 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2345,14 +2345,14 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
+    int8_t flushResult = state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
     int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
-    return 0;
+    return flushResult == 0 ? -1 : 0;
 }
 
 /**
@@ -2363,13 +2363,11 @@ int8_t embedDBFlushVar(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
-        return 0;
 
-    // Flush var data page before the records that refer to it
+    // Flush var data page before the records that refer to it. Pages filled by embedDBPutVar are written but not flushed yet.
     if (EMBEDDB_USING_VDATA(state->parameters)) {
         int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
+        if (varFlushResult != 0 || state->fileInterface->flush(state->varFile) == 0) {
 #ifdef PRINT_ERRORS
             printf("Failed to flush variable data page");
 #endif
@@ -2377,26 +2375,33 @@ int8_t embedDBFlush(embedDBState *state) {
         }
     }
 
-    if (EMBEDDB_USING_INDEX(state->parameters) && reserveIndexRecord(state) != 0)
-        return -1;
+    if (EMBEDDB_GET_COUNT(buffer) > 0) {
+        if (EMBEDDB_USING_INDEX(state->parameters) && reserveIndexRecord(state) != 0)
+            return -1;
 
-    id_t pageNum = writePage(state, buffer);
-    if (pageNum == -1) {
+        id_t pageNum = writePage(state, buffer);
+        if (pageNum == -1) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write page during embedDBFlush.");
+            printf("Failed to write page during embedDBFlush.");
 #endif
-        return -1;
-    }
+            return -1;
+        }
 
-    state->fileInterface->flush(state->dataFile);
+        indexPage(state, pageNum);
 
-    indexPage(state, pageNum);
+        if (EMBEDDB_USING_INDEX(state->parameters))
+            addIndexRecord(state, pageNum);
 
-    if (EMBEDDB_USING_INDEX(state->parameters))
-        addIndexRecord(state, pageNum);
+        /* Reinitialize buffer */
+        initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+    }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+    if (state->fileInterface->flush(state->dataFile) == 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        return -1;
+    }
 
     /* The next page is in the first record-level consistency block once a block has been filled */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
@@ -2406,18 +2411,25 @@ int8_t embedDBFlush(embedDBState *state) {
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
+        if (EMBEDDB_GET_COUNT(buf) > 0) {
+            id_t writeResult = writeIndexPage(state, buf);
+            if (writeResult == -1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to write index page during embedDBFlush.");
+                printf("Failed to write index page during embedDBFlush.");
 #endif
-            return -1;
-        }
+                return -1;
+            }
 
-        state->fileInterface->flush(state->indexFile);
+            /* Reinitialize buffer */
+            initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+        }
 
-        /* Reinitialize buffer */
-        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+        if (state->fileInterface->flush(state->indexFile) == 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the index file during embedDBFlush.");
+#endif
+            return -1;
+        }
     }
     return 0;
 }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index fb90a4f..bf74fc9 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1895,14 +1895,14 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
+    int8_t flushResult = state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
     int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
-    return 0;
+    return flushResult == 0 ? -1 : 0;
 }
 
 /**
@@ -1913,13 +1913,11 @@ int8_t embedDBFlushVar(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
-        return 0;
 
-    // Flush var data page before the records that refer to it
+    // Flush var data page before the records that refer to it. Pages filled by embedDBPutVar are written but not flushed yet.
     if (EMBEDDB_USING_VDATA(state->parameters)) {
         int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
+        if (varFlushResult != 0 || state->fileInterface->flush(state->varFile) == 0) {
 #ifdef PRINT_ERRORS
             printf("Failed to flush variable data page");
 #endif
@@ -1927,26 +1925,33 @@ int8_t embedDBFlush(embedDBState *state) {
         }
     }
 
-    if (EMBEDDB_USING_INDEX(state->parameters) && reserveIndexRecord(state) != 0)
-        return -1;
+    if (EMBEDDB_GET_COUNT(buffer) > 0) {
+        if (EMBEDDB_USING_INDEX(state->parameters) && reserveIndexRecord(state) != 0)
+            return -1;
 
-    id_t pageNum = writePage(state, buffer);
-    if (pageNum == -1) {
+        id_t pageNum = writePage(state, buffer);
+        if (pageNum == -1) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write page during embedDBFlush.");
+            printf("Failed to write page during embedDBFlush.");
 #endif
-        return -1;
-    }
+            return -1;
+        }
 
-    state->fileInterface->flush(state->dataFile);
+        indexPage(state, pageNum);
 
-    indexPage(state, pageNum);
+        if (EMBEDDB_USING_INDEX(state->parameters))
+            addIndexRecord(state, pageNum);
 
-    if (EMBEDDB_USING_INDEX(state->parameters))
-        addIndexRecord(state, pageNum);
+        /* Reinitialize buffer */
+        initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+    }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+    if (state->fileInterface->flush(state->dataFile) == 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        return -1;
+    }
 
     /* The next page is in the first record-level consistency block once a block has been filled */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
@@ -1956,18 +1961,25 @@ int8_t embedDBFlush(embedDBState *state) {
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
+        if (EMBEDDB_GET_COUNT(buf) > 0) {
+            id_t writeResult = writeIndexPage(state, buf);
+            if (writeResult == -1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to write index page during embedDBFlush.");
+                printf("Failed to write index page during embedDBFlush.");
 #endif
-            return -1;
-        }
+                return -1;
+            }
 
-        state->fileInterface->flush(state->indexFile);
+            /* Reinitialize buffer */
+            initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+        }
 
-        /* Reinitialize buffer */
-        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+        if (state->fileInterface->flush(state->indexFile) == 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the index file during embedDBFlush.");
+#endif
+            return -1;
+        }
     }
     return 0;
 }
-- 
2.43.0

