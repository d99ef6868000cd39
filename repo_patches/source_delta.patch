From c1e2876faa35520f8e698e0391c71b790a33ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 01/22] fix: debounce_filter_set forgets changes that were
 being debounced

---
 gel/debounce/debounce.c | 103 +++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 49 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index f7caea5..4ae2141 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,50 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 8da4e8dea61513754702ed1fa99797db743b2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 02/22] fix: pulse_filter_init clears the debounce counters

---
 gel/debounce/pulsecounter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index b530b8e..0cd63a4 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -8,8 +8,10 @@ void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int i
 
     filter->old_input = init;
     filter->type      = type;
-    for (i = 0; i < PULSE_NUM; i++)
+    for (i = 0; i < PULSE_NUM; i++) {
+        filter->filters[i] = 0;
         pulse_clear(filter, i);
+    }
 }
 
 int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce) {
-- 
2.43.0


From e7ff2a17cfbbf9ba0ad9b6eb95613264f59a095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 03/22] fix: queue count is correct after the indexes wrap
 around

---
 gel/collections/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index f536c0a..93bc389 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -37,7 +37,7 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return p_queue->write_idx - p_queue->read_idx;                                                                 \
+        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-- 
2.43.0


From 61dfcef41f90246b873dd6d2035d2711931e0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 04/22] fix: stack peek returns the top item

---
 gel/collections/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/stack.h b/gel/collections/stack.h
index 4dfcbb4..16996e9 100644
--- a/gel/collections/stack.h
+++ b/gel/collections/stack.h
@@ -61,7 +61,7 @@ typedef enum {
         }                                                                                                              \
                                                                                                                        \
         if (p_item_out)                                                                                                \
-            *p_item_out = p_stack->items[p_stack->idx];                                                                \
+            *p_item_out = p_stack->items[p_stack->idx - 1];                                                            \
                                                                                                                        \
         return POP_RESULT_SUCCESS;                                                                                     \
     }                                                                                                                  \
-- 
2.43.0


From cc00084f0ac0bb5975f70dc1c0ffed652a74d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 05/22] fix: time comparisons work with timestamps narrower
 than long

---
 gel/timer/timecheck.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gel/timer/timecheck.h b/gel/timer/timecheck.h
index 0050232..f84ac15 100644
--- a/gel/timer/timecheck.h
+++ b/gel/timer/timecheck.h
@@ -24,13 +24,24 @@ typedef GEL_CUSTOM_TIMESTAMP_TYPE timestamp_t;
     })
 #endif
 
-#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) < 0))
-#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) <= 0))
+#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && time_is_negative((b) - (a)))
+#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && !time_is_positive((b) - (a)))
 #define time_before(a, b)         time_after(b, a)
 
 #define is_expired(start, current, delay) is_loosely_expired(start, current, delay)
 
 
+// Timestamp differences wrap around: the sign is the most significant bit of timestamp_t, whatever its width
+static inline __attribute__((always_inline)) int time_is_negative(timestamp_t difference) {
+    return (difference >> (sizeof(timestamp_t) * 8 - 1)) != 0;
+}
+
+
+static inline __attribute__((always_inline)) int time_is_positive(timestamp_t difference) {
+    return difference != 0 && !time_is_negative(difference);
+}
+
+
 static inline __attribute__((always_inline)) timestamp_t time_interval(timestamp_t a, timestamp_t b) {
     if (time_after(a, b))
         return -((timestamp_t)b - (timestamp_t)a);
-- 
2.43.0


From 93ad869e2c683dbb522d091c298d1a8b65061efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 06/22] fix: GEL_TIMER_NULL initializes only existing fields

---
 gel/timer/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/timer/timer.h b/gel/timer/timer.h
index bfd07fd..3ae0367 100644
--- a/gel/timer/timer.h
+++ b/gel/timer/timer.h
@@ -7,7 +7,7 @@
 
 
 #define GEL_TIMER_NULL                                                                                                 \
-    ((gel_timer_t){.active = 0, .autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
+    ((gel_timer_t){.autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
 
 
 
-- 
2.43.0


From 6be3c1f496ed91e6d0092cb3f548d49dad427896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 07/22] fix: circular_buf_size of a full buffer is its capacity

---
 gel/collections/circular_buffer.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 172eca2..30d3583 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -108,16 +108,14 @@ size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t size = cbuf->bufsize;
+    size_t size;
 
     int tail = cbuf->tail;
     int head = cbuf->head;
-    if (!is_circular_buf_full(cbuf)) {
-        if (head >= tail) {
-            size = (head - tail);
-        } else {
-            size = (cbuf->bufsize + head - tail);
-        }
+    if (head >= tail) {
+        size = (head - tail);
+    } else {
+        size = (cbuf->bufsize + head - tail);
     }
 
     return size;
-- 
2.43.0


From 3e376ef3e52885fd4fc88ac8f1f13e9fa63d1784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 08/22] fix: circular_buf_puts never overtakes the tail

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 30d3583..9eea742 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -164,7 +164,7 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
             else
                 chunk = len > cbuf->bufsize - head ? cbuf->bufsize - head : len;
         } else {
-            chunk = len > tail - head ? tail - head - 1 : len;
+            chunk = len > tail - head - 1 ? tail - head - 1 : len;
         }
 
         memcpy(&cbuf->buffer[head], data, chunk * sizeof(GEL_CBUF_TYPE));
-- 
2.43.0


From af049babbf71d5962a6eff6597f88939ec9316c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 09/22] fix: circular_buf_puts follows a tail moved by the
 consumer meanwhile

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 9eea742..4cf9a5b 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -155,9 +155,9 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
         return -1;
 
     head = cbuf->head;
-    tail = cbuf->tail;
     while (!is_circular_buf_full(cbuf) && len > 0) {
         int chunk;
+        tail = cbuf->tail;     // The consumer might have moved it in the meantime
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
-- 
2.43.0


From 58932afa193072f48c7d2db93710d781da8250cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 10/22] fix: parameter_get_count counts the freely accessible
 parameters

---
 gel/parameter/parameter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 198da31..1d50192 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -287,7 +287,8 @@ size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int a
         if (ps[i].runtime)
             ps[i].runtime(&ps[i], ps[i].arg);
 
-        if ((ps[i].access_level & al) > 0)
+        // A null access level means free access
+        if (ps[i].access_level == 0 || ((ps[i].access_level & al) > 0))
             count++;
     }
 
-- 
2.43.0


From 7cf3e446b7916372dade6d475612cc63676819a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 11/22] fix: parameter_to_long keeps the sign of 8 bit values

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 1d50192..d5b3f24 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -147,7 +147,7 @@ long parameter_to_long(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (long)*(uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (long)*(uint8_t *)handle->pointer;
+                return (long)*(int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (long)*(uint16_t *)handle->pointer;
-- 
2.43.0


From 6faa3766293dc7e0150d925256cdc61de1d92ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 12/22] fix: 64 bit parameters keep all bits of their limits

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 1bde379..965981b 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -97,7 +97,7 @@
 #define _PARAMETER_FIELD_UINT64 u64
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
-#define CAST64(x)               ((uint32_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
-- 
2.43.0


From d09041302fc6136822c43ce18dfa51f0801dbbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 13/22] fix: parameter_get_total_values does not overflow the
 type of the parameter

---
 gel/parameter/parameter.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index d5b3f24..35408b5 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -65,6 +65,14 @@
     })
 
 
+#define GET_INTEGER_RANGE(p, TYPE, name)                                                                               \
+    ({                                                                                                                 \
+        TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
+        TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
+        (size_t)max - (size_t)min + 1;                                                                                 \
+    })
+
+
 
 
 parameter_handle_t *parameter_get_handle(parameter_handle_t *ps, size_t length, size_t num, unsigned int al) {
@@ -504,33 +512,33 @@ size_t parameter_get_total_values(parameter_handle_t *handle) {
     if (handle != NULL) {
         switch (handle->type) {
             case PARAMETER_TYPE_UINT8:
-                len = GET_RANGE((*handle), uint8_t, u8);
+                len = GET_INTEGER_RANGE((*handle), uint8_t, u8);
                 break;
             case PARAMETER_TYPE_INT8:
-                len = GET_RANGE((*handle), int8_t, i8);
+                len = GET_INTEGER_RANGE((*handle), int8_t, i8);
                 break;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
-                len = GET_RANGE((*handle), uint16_t, u16);
+                len = GET_INTEGER_RANGE((*handle), uint16_t, u16);
                 break;
             case PARAMETER_TYPE_INT16:
-                len = GET_RANGE((*handle), int16_t, i16);
+                len = GET_INTEGER_RANGE((*handle), int16_t, i16);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_UINT32:
-                len = GET_RANGE((*handle), uint32_t, u32);
+                len = GET_INTEGER_RANGE((*handle), uint32_t, u32);
                 break;
             case PARAMETER_TYPE_INT32:
-                len = GET_RANGE((*handle), int32_t, i32);
+                len = GET_INTEGER_RANGE((*handle), int32_t, i32);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_UINT64:
-                len = GET_RANGE((*handle), uint64_t, u64);
+                len = GET_INTEGER_RANGE((*handle), uint64_t, u64);
                 break;
             case PARAMETER_TYPE_INT64:
-                len = GET_RANGE((*handle), int64_t, i64);
+                len = GET_INTEGER_RANGE((*handle), int64_t, i64);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
-- 
2.43.0


From 21d6103f3bf04c96c7a7a1316750adcf231f2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 14/22] fix: pid_add_input records a null error in the integral
 history

---
 gel/pid/pid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gel/pid/pid.c b/gel/pid/pid.c
index 4e0b502..65ececd 100644
--- a/gel/pid/pid.c
+++ b/gel/pid/pid.c
@@ -50,6 +50,8 @@ void pid_add_input(pid_ctrl_t *pid, pid_control_type_t value) {
             pid->history[pid->index] = error;
         else
             pid->history[pid->index] = 0;
+    } else {
+        pid->history[pid->index] = 0;
     }
 
     pid->index = (pid->index + 1) % GEL_PID_INTEGRAL_HISTORY_SIZE;
-- 
2.43.0


From 700705e8ef530a1d3b426af2f6ae01eef6e135e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 15/22] fix: scheduler compares whole values when choosing
 between active entries

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index d202768..b927fcf 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -113,7 +113,7 @@ int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info) {
 int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info) {
     uint8_t       found      = 0;
     unsigned long foundtotal = 0;
-    uint8_t       foundvalue = 0;
+    int           foundvalue = 0;
     int           foundid    = -1;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-- 
2.43.0


From a0a319ec2527a18a05413f0a93073fa09e28c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 16/22] fix: a disabled scheduler entry is never active

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index b927fcf..b34af47 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -87,7 +87,7 @@ int scheduler_disable_schedule_entry(scheduler_t *scheduler, size_t entry_index)
 
 
 static uint8_t is_entry_active(const scheduler_entry_t *entry, struct tm *tm_info) {
-    if (!is_day_included(entry->days, tm_info->tm_wday)) {
+    if (!entry->enabled || !is_day_included(entry->days, tm_info->tm_wday)) {
         return 0;
     }
 
-- 
2.43.0


From b42b522de5e7e1ce8215ae46acb42fe7ba0a53d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 17/22] fix: remaining duration of a scheduler entry that goes
 past midnight

---
 gel/scheduler/scheduler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index b34af47..b00109a 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -224,6 +224,11 @@ unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler,
     unsigned long current = to_seconds(tm_info->tm_hour, tm_info->tm_min, tm_info->tm_sec);
     unsigned long end     = entry->end_second;
 
+    // The entry started before midnight
+    if (current < entry->start_second) {
+        end -= seconds_in_day;
+    }
+
     return end - current;
 }
 
-- 
2.43.0


From 845d8f4e5c62429eb6bfc6f7d0c14ce16aa3ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 18/22] fix: wear leveling finds the last block after a restart
 when all markers are consecutive

---
 gel/wearleveling/wearleveling.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 6e0cf1f..1068c01 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -116,11 +116,6 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    if (i >= wlm->blocks_in_page) {
-        // Something very wrong happened, reset to 0
-        return 0;
-    }
-
-    // Return the index of the last active marker
+    // Return the index of the last active marker (the last block if all the markers are consecutive)
     return i - 1;
 }
\ No newline at end of file
-- 
2.43.0


From f9adae5f331da142be5a60a539afad7142ac292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 19/22] fix: wear leveling keeps the active block when a write
 fails

---
 gel/wearleveling/wearleveling.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 1068c01..967508e 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -54,10 +54,16 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
     }
 
     if (memcmp(intermediate_buffer, buffer, len)) {
-        wlm->last_marker       = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
-        wlm->last_active_block = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
+        uint8_t next_marker = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
+        size_t  next_block  = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
 
-        return wlm->write_block(wlm->last_active_block, wlm->last_marker, buffer, len);
+        if ((res = wlm->write_block(next_block, next_marker, buffer, len))) {
+            return res;
+        }
+
+        // Move on only if the data was actually written
+        wlm->last_marker       = next_marker;
+        wlm->last_active_block = next_block;
     }
     return 0;
 }
-- 
2.43.0


From e439e68faf7a62b064f42bd8a71df56dea2ba2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 20/22] fix: loading the last events with a huge number does
 not overflow

---
 gel/circular_event_log/circular_event_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index ccffdbf..e6e5e0b 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -35,7 +35,7 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         return 0;
     }
     size_t actual_number = number;
-    if (jump + actual_number > total_events) {
+    if (actual_number > total_events - jump) {
         actual_number = total_events - jump;
     }
 
-- 
2.43.0


From 36dc2d5fcd623095797dbd4483132d3b3da3a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 21/22] fix: loading the last events returns the error of the
 second chunk

---
 gel/circular_event_log/circular_event_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index e6e5e0b..c0dc03a 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -49,7 +49,11 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         }
 
         size_t second_round = actual_number - to_read;
-        return res + logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        int    second_res   = logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        if (second_res < 0) {
+            return second_res;
+        }
+        return res + second_res;
     } else {
         return logger.load_events(&events[0], actual_number, start);
     }
-- 
2.43.0


From 45712b498b78c773b8014f9707dcc797116c295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 22/22] fix: the page manager saves the current page with
 NDEBUG as well

---
 gel/pagemanager/page_manager.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 627fc57..ca2f69e 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -170,7 +170,10 @@ pman_view_t pman_change_page_extra(page_manager_t *pman, pman_model_t model, pma
         if (current->close)
             current->close(current->data);
 
-        assert(navigation_stack_push(&pman->page_stack, current) != PUSH_RESULT_FULL);
+        // Not inside the assertion: it must happen with NDEBUG as well
+        push_result_t push_result = navigation_stack_push(&pman->page_stack, current);
+        assert(push_result != PUSH_RESULT_FULL);
+        (void)push_result;
     } else {
         pman->initialized = 1;
     }
-- 
2.43.0

