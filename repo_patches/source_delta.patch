From e93afb9b4f1b9d431fbf5024b16fd099605ae0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 01/33] fix: a full circular buffer reports its stored count,
 not the buffer size

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 172eca2..f4ed860 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -108,7 +108,7 @@ size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t size = cbuf->bufsize;
+    size_t size = cbuf->bufsize - 1;
 
     int tail = cbuf->tail;
     int head = cbuf->head;
-- 
2.43.0


From 0a0cb2fa102ad70e66791617dd267d757b565054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 02/33] fix: a bulk put of exactly the free space plus one must
 not empty the circular buffer

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index f4ed860..46f37ed 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -166,7 +166,7 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
             else
                 chunk = len > cbuf->bufsize - head ? cbuf->bufsize - head : len;
         } else {
-            chunk = len > tail - head ? tail - head - 1 : len;
+            chunk = len > tail - head - 1 ? tail - head - 1 : len;
         }
 
         memcpy(&cbuf->buffer[head], data, chunk * sizeof(GEL_CBUF_TYPE));
-- 
2.43.0


From f1e32cd72816dc2180b9595178542b732a5f1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 03/33] fix: queue count stays correct when the 16-bit write
 index wraps

---
 gel/collections/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index f536c0a..93bc389 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -37,7 +37,7 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return p_queue->write_idx - p_queue->read_idx;                                                                 \
+        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-- 
2.43.0


From 4b812b2791ed2605fb7bf52fbcddeebe3ef76f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 04/33] fix: stack peek returns the top item, not the free slot
 above it

---
 gel/collections/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/stack.h b/gel/collections/stack.h
index 4dfcbb4..16996e9 100644
--- a/gel/collections/stack.h
+++ b/gel/collections/stack.h
@@ -61,7 +61,7 @@ typedef enum {
         }                                                                                                              \
                                                                                                                        \
         if (p_item_out)                                                                                                \
-            *p_item_out = p_stack->items[p_stack->idx];                                                                \
+            *p_item_out = p_stack->items[p_stack->idx - 1];                                                            \
                                                                                                                        \
         return POP_RESULT_SUCCESS;                                                                                     \
     }                                                                                                                  \
-- 
2.43.0


From ea8b07123525d645b1043c38b936b150ea2410c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 05/33] fix: event log request for a huge number of events no
 longer overflows the window computation

---
 gel/circular_event_log/circular_event_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index ccffdbf..e6e5e0b 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -35,7 +35,7 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         return 0;
     }
     size_t actual_number = number;
-    if (jump + actual_number > total_events) {
+    if (actual_number > total_events - jump) {
         actual_number = total_events - jump;
     }
 
-- 
2.43.0


From 28d429adf7e9b14db4cc6ccca40a21921c0bdab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 06/33] fix: event log reports a storage error in the second
 part of a wrapped read

---
 gel/circular_event_log/circular_event_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index e6e5e0b..c0dc03a 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -49,7 +49,11 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         }
 
         size_t second_round = actual_number - to_read;
-        return res + logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        int    second_res   = logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        if (second_res < 0) {
+            return second_res;
+        }
+        return res + second_res;
     } else {
         return logger.load_events(&events[0], actual_number, start);
     }
-- 
2.43.0


From 3a180a2573bd75ff81ddfd188d816f54d562d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 07/33] fix: wear leveling finds the last block of the page
 again after a restart

---
 gel/wearleveling/wearleveling.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 6e0cf1f..f812a0e 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -116,11 +116,6 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    if (i >= wlm->blocks_in_page) {
-        // Something very wrong happened, reset to 0
-        return 0;
-    }
-
     // Return the index of the last active marker
     return i - 1;
 }
\ No newline at end of file
-- 
2.43.0


From 21f72accfb12df75585aaa431d0d50c6612a4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 08/33] fix: a failed wear leveled write keeps the previous
 block active

---
 gel/wearleveling/wearleveling.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index f812a0e..893ffea 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -54,10 +54,16 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
     }
 
     if (memcmp(intermediate_buffer, buffer, len)) {
-        wlm->last_marker       = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
-        wlm->last_active_block = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
+        uint8_t marker = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
+        size_t  block  = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
 
-        return wlm->write_block(wlm->last_active_block, wlm->last_marker, buffer, len);
+        if ((res = wlm->write_block(block, marker, buffer, len))) {
+            return res;
+        }
+
+        // The new block is the active one only once it has been successfully written
+        wlm->last_marker       = marker;
+        wlm->last_active_block = block;
     }
     return 0;
 }
-- 
2.43.0


From a00cd5b32a6956f00fafbcab7254bec5baa88e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 09/33] fix: wear leveling initialisation reports storage
 errors instead of using them as a block index

---
 gel/wearleveling/wearleveling.c | 18 +++++++++++-------
 gel/wearleveling/wearleveling.h |  4 ++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 893ffea..9fdf57c 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -21,7 +21,7 @@
 #define NEXT_BLOCK(x, mod) ((x + 1) % mod)
 
 
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker);
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_active_block, uint8_t *last_marker);
 
 
 /**
@@ -77,16 +77,17 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
  * @param write_block Function to write a specific block of memory (and marker)
  * @param read_marker Function to read the marker of a block
  * @param blocks_in_page Number of blocks in page
+ * @return int 0 if everything was ok, something else if a marker could not be read (and the memory cannot be used)
  */
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page) {
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page) {
     assert(blocks_in_page < MAX_BLOCKS_IN_PAGE);
     wlm->read_block     = read_block;
     wlm->write_block    = write_block;
     wlm->read_marker    = read_marker;
     wlm->blocks_in_page = blocks_in_page;
 
-    wlm->last_active_block = search_last(wlm, &wlm->last_marker);
+    return search_last(wlm, &wlm->last_active_block, &wlm->last_marker);
 }
 
 
@@ -94,9 +95,11 @@ void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, w
  * @brief Search for the last used block
  *
  * @param wlm Wear leveled memory data structure
+ * @param last_active_block Index of the last used block
+ * @param last_marker Marker of the last used block
  * @return int 0 if everything was ok, something else otherwise
  */
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_active_block, uint8_t *last_marker) {
     uint8_t marker;
     int     err;
 
@@ -122,6 +125,7 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    // Return the index of the last active marker
-    return i - 1;
+    // The index of the last active marker
+    *last_active_block = i - 1;
+    return 0;
 }
\ No newline at end of file
diff --git a/gel/wearleveling/wearleveling.h b/gel/wearleveling/wearleveling.h
index ac2a353..796c3db 100755
--- a/gel/wearleveling/wearleveling.h
+++ b/gel/wearleveling/wearleveling.h
@@ -29,8 +29,8 @@ int wearleveling_read(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
 int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page);
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page);
 
 
 #endif
-- 
2.43.0


From 124b9c6f010a4c363118759916b0b93e8da99f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 10/33] fix: setting the debounce filter restarts the pending
 counts

---
 gel/debounce/debounce.c | 103 +++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 49 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index f7caea5..6c1c714 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,50 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = set;
+    filter->buffered  = set;
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From c4b031b406a07293a84299b9f8015ae60a91bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 11/33] fix: initialising the pulse filter clears its debounce
 counts

---
 gel/debounce/pulsecounter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index b530b8e..0cd63a4 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -8,8 +8,10 @@ void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int i
 
     filter->old_input = init;
     filter->type      = type;
-    for (i = 0; i < PULSE_NUM; i++)
+    for (i = 0; i < PULSE_NUM; i++) {
+        filter->filters[i] = 0;
         pulse_clear(filter, i);
+    }
 }
 
 int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce) {
-- 
2.43.0


From c63a80f36de42ee5ea7daddf02c93b50a6ec15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 12/33] fix: a key shadowed by the engaged one no longer stays
 reported as pressed

---
 gel/keypad/keypad.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gel/keypad/keypad.c b/gel/keypad/keypad.c
index 2c8ed7d..bffeae6 100755
--- a/gel/keypad/keypad.c
+++ b/gel/keypad/keypad.c
@@ -34,6 +34,10 @@ keypad_update_t keypad_routine(keypad_key_t *keys, unsigned long click, unsigned
             event.code = keys[i].code;
             break;
         }
+        // Nothing going on: forget a press that was shadowed by another key
+        else {
+            keys[i]._state.value = 0;
+        }
         i++;
     }
 
-- 
2.43.0


From 97cc729abc73a974253e974654c16d2da2b91679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 13/33] fix: GEL_TIMER_NULL initialises the existing fields of
 a timer

---
 gel/timer/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/timer/timer.h b/gel/timer/timer.h
index bfd07fd..3ae0367 100644
--- a/gel/timer/timer.h
+++ b/gel/timer/timer.h
@@ -7,7 +7,7 @@
 
 
 #define GEL_TIMER_NULL                                                                                                 \
-    ((gel_timer_t){.active = 0, .autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
+    ((gel_timer_t){.autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
 
 
 
-- 
2.43.0


From b93a74acb7354ced7e4218fb9b642b91dba2e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 14/33] fix: time comparison works for timestamp types of any
 size

---
 gel/timer/timecheck.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gel/timer/timecheck.h b/gel/timer/timecheck.h
index 0050232..42e91fe 100644
--- a/gel/timer/timecheck.h
+++ b/gel/timer/timecheck.h
@@ -24,13 +24,24 @@ typedef GEL_CUSTOM_TIMESTAMP_TYPE timestamp_t;
     })
 #endif
 
-#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) < 0))
-#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) <= 0))
+#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && time_is_negative((b) - (a)))
+#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && !time_is_positive((b) - (a)))
 #define time_before(a, b)         time_after(b, a)
 
 #define is_expired(start, current, delay) is_loosely_expired(start, current, delay)
 
 
+// Sign of a difference between timestamps: the top bit of timestamp_t, whose size need not be that of long
+static inline __attribute__((always_inline)) int time_is_negative(timestamp_t difference) {
+    return (difference >> (sizeof(timestamp_t) * 8 - 1)) & 1;
+}
+
+
+static inline __attribute__((always_inline)) int time_is_positive(timestamp_t difference) {
+    return difference != 0 && !time_is_negative(difference);
+}
+
+
 static inline __attribute__((always_inline)) timestamp_t time_interval(timestamp_t a, timestamp_t b) {
     if (time_after(a, b))
         return -((timestamp_t)b - (timestamp_t)a);
-- 
2.43.0


From 52301c5b27a49e5f1313c40f451fe666f853f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 15/33] fix: parameter declarations accept any pointer
 expression

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 1bde379..c53dd00 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -136,7 +136,7 @@
                           type##_CAST(step), (lvl), (udata), (runtime), (arg)})
 
 #define PARAMETER_FULL(ptr, pmin, pmax, min, max, def, step, lvl, udata, runtime, arg)                                 \
-    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*ptr), (ptr), (pmin), (pmax),                                          \
+    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*(ptr)), (ptr), (pmin), (pmax),                                          \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (min)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (max)),  \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (def)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (step)), \
                           (lvl), (udata), (runtime), (arg)})
-- 
2.43.0


From 4d376f410243100846984775db692cf1ff26bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 16/33] fix: 64-bit parameters keep the full limits, step and
 default they are declared with

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index c53dd00..228007c 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -97,7 +97,7 @@
 #define _PARAMETER_FIELD_UINT64 u64
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
-#define CAST64(x)               ((uint32_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
-- 
2.43.0


From dbfd7579650427296cecb54fbb54b248bdcf522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 17/33] fix: converting a signed 8-bit parameter to long keeps
 its sign

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 198da31..51c7fa3 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -147,7 +147,7 @@ long parameter_to_long(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (long)*(uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (long)*(uint8_t *)handle->pointer;
+                return (long)*(int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (long)*(uint16_t *)handle->pointer;
-- 
2.43.0


From 63c9f58ec98ebafc6cdfaec3ebcce1adc47d62ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 18/33] fix: the count of accessible parameters includes those
 with free access

---
 gel/parameter/parameter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 51c7fa3..d5b3f24 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -287,7 +287,8 @@ size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int a
         if (ps[i].runtime)
             ps[i].runtime(&ps[i], ps[i].arg);
 
-        if ((ps[i].access_level & al) > 0)
+        // A null access level means free access
+        if (ps[i].access_level == 0 || ((ps[i].access_level & al) > 0))
             count++;
     }
 
-- 
2.43.0


From 0542672f5dc50f599669b0980271224498547883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 19/33] fix: the number of values of a 32-bit parameter no
 longer overflows its type

---
 gel/parameter/parameter.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index d5b3f24..4644d4a 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -58,6 +58,15 @@
 
 
 #define GET_RANGE(p, TYPE, name)                                                                                       \
+    ({                                                                                                                 \
+        TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
+        TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
+        /* In size_t, as the number of values may not fit the type */                                                  \
+        (size_t)max - (size_t)min + 1;                                                                                 \
+    })
+
+
+#define GET_FLOAT_RANGE(p, TYPE, name)                                                                                 \
     ({                                                                                                                 \
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
@@ -535,12 +544,12 @@ size_t parameter_get_total_values(parameter_handle_t *handle) {
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_FLOAT:
-                len = GET_RANGE((*handle), float, f);
+                len = GET_FLOAT_RANGE((*handle), float, f);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_DOUBLE:
-                len = GET_RANGE((*handle), double, d);
+                len = GET_FLOAT_RANGE((*handle), double, d);
                 break;
 #endif
         }
-- 
2.43.0


From 42d6fa9ca0d43e4bc0997a103ee850f6629860da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 20/33] fix: a zero error no longer leaves an old value in the
 integral window

---
 gel/pid/pid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gel/pid/pid.c b/gel/pid/pid.c
index 4e0b502..65ececd 100644
--- a/gel/pid/pid.c
+++ b/gel/pid/pid.c
@@ -50,6 +50,8 @@ void pid_add_input(pid_ctrl_t *pid, pid_control_type_t value) {
             pid->history[pid->index] = error;
         else
             pid->history[pid->index] = 0;
+    } else {
+        pid->history[pid->index] = 0;
     }
 
     pid->index = (pid->index + 1) % GEL_PID_INTEGRAL_HISTORY_SIZE;
-- 
2.43.0


From 63dac0978a141e39c6c4e812eea3a28df14cfcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 21/33] fix: the map of active schedule entries leaves out
 disabled ones

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index d202768..45e9b12 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -203,7 +203,7 @@ uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_
     uint16_t result = 0;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-        result |= (is_entry_active(&scheduler->entries[i], tm_info) ? 1 : 0) << i;
+        result |= (scheduler->entries[i].enabled && is_entry_active(&scheduler->entries[i], tm_info) ? 1 : 0) << i;
     }
 
     return result;
-- 
2.43.0


From 5f30d564971b3f343d7545be962685303ea6b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 22/33] fix: the value deciding between equal schedule entries
 is not truncated

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 45e9b12..fc0e217 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -113,7 +113,7 @@ int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info) {
 int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info) {
     uint8_t       found      = 0;
     unsigned long foundtotal = 0;
-    uint8_t       foundvalue = 0;
+    int           foundvalue = 0;
     int           foundid    = -1;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-- 
2.43.0


From f155ac3d0629805493d2deffc9fd2256a930298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 23/33] fix: remaining duration of an overnight schedule entry
 after midnight

---
 gel/scheduler/scheduler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index fc0e217..0f0b2db 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -224,6 +224,11 @@ unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler,
     unsigned long current = to_seconds(tm_info->tm_hour, tm_info->tm_min, tm_info->tm_sec);
     unsigned long end     = entry->end_second;
 
+    // Past midnight the end of an overnight schedule is today
+    if (end > seconds_in_day && current < end - seconds_in_day) {
+        end -= seconds_in_day;
+    }
+
     return end - current;
 }
 
-- 
2.43.0


From 818dbbf7a9b1e31b9402ec497854f91c671e26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 24/33] fix: the pack and unpack macros no longer capture
 caller variables named tmp and size

---
 gel/serializer/serializer.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gel/serializer/serializer.h b/gel/serializer/serializer.h
index 6738128..01b5f72 100644
--- a/gel/serializer/serializer.h
+++ b/gel/serializer/serializer.h
@@ -16,41 +16,41 @@
 
 #define UNPACK_UINT16_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint16_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint16_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint16_t tmp_;                                                                                                 \
+        size_t   size_ = deserialize_uint16_be(&tmp_, (buffer));                                                       \
+        (var)         = tmp_;                                                                                          \
+        size_;                                                                                                         \
     })
 
 #define UNPACK_UINT32_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint32_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint32_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint32_t tmp_;                                                                                                 \
+        size_t   size_ = deserialize_uint32_be(&tmp_, (buffer));                                                       \
+        (var)         = tmp_;                                                                                          \
+        size_;                                                                                                         \
     })
 
 #define UNPACK_UINT8(var, buffer)                                                                                      \
     ({                                                                                                                 \
-        uint8_t tmp;                                                                                                   \
-        size_t  size = deserialize_uint8(&tmp, (buffer));                                                              \
-        (var)        = tmp;                                                                                            \
-        size;                                                                                                          \
+        uint8_t tmp_;                                                                                                  \
+        size_t  size_ = deserialize_uint8(&tmp_, (buffer));                                                            \
+        (var)        = tmp_;                                                                                           \
+        size_;                                                                                                         \
     })
 
 
 #define PACK_UINT16_BE(buffer, var)                                                                                    \
     ({                                                                                                                 \
-        uint16_t tmp  = (uint16_t)(var);                                                                               \
-        size_t   size = serialize_uint16_be((buffer), tmp);                                                            \
-        size;                                                                                                          \
+        uint16_t tmp_  = (uint16_t)(var);                                                                              \
+        size_t   size_ = serialize_uint16_be((buffer), tmp_);                                                          \
+        size_;                                                                                                         \
     })
 
 #define PACK_UINT8(buffer, var)                                                                                        \
     ({                                                                                                                 \
-        uint8_t tmp  = (uint8_t)(var);                                                                                 \
-        size_t  size = serialize_uint8((buffer), tmp);                                                                 \
-        size;                                                                                                          \
+        uint8_t tmp_  = (uint8_t)(var);                                                                                \
+        size_t  size_ = serialize_uint8((buffer), tmp_);                                                               \
+        size_;                                                                                                         \
     })
 
 
-- 
2.43.0


From 4f3d7415a4c18b3bafdd5323e66b65d2eafe2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 25/33] fix: array updates accept any expression as array and
 length

---
 gel/data_structures/struct_update.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 1e9bb18..de0318e 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -35,7 +35,7 @@
  * length: number of elements to be used for the modification (follows pointer aritmetic)
  */
 #define STRUCT_UPDATE_ARRAY(object, field, array, length)                                                              \
-    struct_update_from_data(offsetof(typeof(object), field), array, sizeof(array[0]) * length);
+    struct_update_from_data(offsetof(typeof(object), field), array, sizeof((array)[0]) * (length));
 
 
 typedef struct {
-- 
2.43.0


From 5f1eceba28ff2da98168419829a68b3e6ee261fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 26/33] fix: the page manager's declarations are compiled again

---
 gel/pagemanager/page_manager.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gel/pagemanager/page_manager.h b/gel/pagemanager/page_manager.h
index c618a41..a4716d5 100644
--- a/gel/pagemanager/page_manager.h
+++ b/gel/pagemanager/page_manager.h
@@ -17,8 +17,6 @@
 #error "Configuration not defined"
 #endif
 
-#if 0
-
 typedef struct {
     int              id;
     pman_page_data_t data;
@@ -144,6 +142,5 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found);
 
 pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model, pman_event_t event);
-#endif
 
 #endif
-- 
2.43.0


From d687cfefa1aac9b6e40338b981a87e031b7e82c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 27/33] fix: swapping, rebasing or resetting without a current
 page

---
 gel/pagemanager/page_manager.c | 38 ++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 627fc57..a069d2b 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -37,13 +37,16 @@ pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model,
 pman_view_t pman_swap_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
@@ -76,11 +79,13 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
     // Deinitialize the stack, we currently have no page
     pman->initialized = 0;
@@ -119,15 +124,18 @@ pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id,
 pman_view_t pman_rebase_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
 
     clear_page_stack(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
-- 
2.43.0


From 4ad0becd3084b3a57e0d4805472195e885ce154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 28/33] fix: the page left behind is pushed on the stack
 without assertions too

---
 gel/pagemanager/page_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index a069d2b..d9845f9 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -178,7 +178,9 @@ pman_view_t pman_change_page_extra(page_manager_t *pman, pman_model_t model, pma
         if (current->close)
             current->close(current->data);
 
-        assert(navigation_stack_push(&pman->page_stack, current) != PUSH_RESULT_FULL);
+        push_result_t result = navigation_stack_push(&pman->page_stack, current);
+        assert(result != PUSH_RESULT_FULL);
+        (void)result;
     } else {
         pman->initialized = 1;
     }
-- 
2.43.0


From 4bb3a8fec31cbd101e5fad1c9e17af5b5c810c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 29/33] fix: a bulk put re-reads the tail so it cannot spin
 forever

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 46f37ed..4f64277 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -157,9 +157,9 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
         return -1;
 
     head = cbuf->head;
-    tail = cbuf->tail;
     while (!is_circular_buf_full(cbuf) && len > 0) {
         int chunk;
+        tail = cbuf->tail;     // The consumer may have moved it since the last chunk
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
-- 
2.43.0


From 64f279498c601ddc62814811a56e02cdfe874550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 30/33] fix: debounce.c keeps its CRLF line endings

---
 gel/debounce/debounce.c | 108 ++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index 6c1c714..e84cb38 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,55 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    int i;
-
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = set;
+    filter->buffered  = set;
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 7254caa63d593a4716156b3c0fe1ec4c967cd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 31/33] fix: scheduler: make the GEL_SCHEDULER_DYNAMIC_ENTRIES
 configuration compile

---
 gel/scheduler/scheduler.c | 3 ++-
 gel/scheduler/scheduler.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 0f0b2db..4dcc4bc 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -30,7 +30,8 @@ void scheduler_init(scheduler_t *scheduler
 ) {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
     scheduler->entries = (scheduler_entry_t *)malloc(sizeof(scheduler_entry_t) * entries);
-    assert(scheduler->entries != NULL) scheduler->num_entries = entries;
+    assert(scheduler->entries != NULL);
+    scheduler->num_entries = entries;
 #endif
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
diff --git a/gel/scheduler/scheduler.h b/gel/scheduler/scheduler.h
index 6757196..a1411e6 100644
--- a/gel/scheduler/scheduler.h
+++ b/gel/scheduler/scheduler.h
@@ -36,8 +36,8 @@ typedef struct {
 
 typedef struct {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
-    size_t            num_entries;
-    schedule_entry_t *entries;
+    size_t             num_entries;
+    scheduler_entry_t *entries;
 #else
     scheduler_entry_t entries[GEL_SCHEDULER_MAX_ENTRIES];
 #endif
-- 
2.43.0


From b78462e719102d770588ae89f22b8a978a6a851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 32/33] fix: bulk reads from a ring without memory divided by
 zero before reporting the failure

---
 gel/collections/circular_buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 4f64277..34a5121 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -30,11 +30,12 @@ static size_t retreat_pointer(circular_buf_t *cbuf, int step) {
 
 static int _circular_buf_get(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len, int consume) {
     int    read = 0, tail, head;
-    size_t size = circular_buf_size(cbuf);
+    size_t size;
     if (!(cbuf && cbuf->buffer))
         return -1;
 
-    len = len < size ? len : size;
+    size = circular_buf_size(cbuf);     // Only meaningful with an initialized buffer
+    len  = len < size ? len : size;
 
     tail = cbuf->tail;
     head = cbuf->head;
-- 
2.43.0


From d1871d0c80f19b197db0452ec4abb3d3b703f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 33/33] fix: the map of active schedules wrapped around beyond
 32 entries

---
 gel/scheduler/scheduler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 4dcc4bc..5747194 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -203,7 +203,8 @@ int scheduler_get_first_available_entry(scheduler_t *scheduler) {
 uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info) {
     uint16_t result = 0;
 
-    for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
+    // The map only has room for the first 16 entries
+    for (size_t i = 0; i < NUM_ENTRIES(scheduler) && i < 16; i++) {
         result |= (scheduler->entries[i].enabled && is_entry_active(&scheduler->entries[i], tm_info) ? 1 : 0) << i;
     }
 
-- 
2.43.0

