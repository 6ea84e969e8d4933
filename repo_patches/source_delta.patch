From 1db02b00ef19151686791d0b8f163e5af75ded0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:33 +0000
Subject: [PATCH 01/38] fix: refuse frame sizes that overflow when the frame
 header is added

a0_transport_alloc and a0_transport_alloc_evicts added the frame header size
to the requested size without checking for overflow. A size close to SIZE_MAX
wrapped around to a tiny frame and was accepted.
---
 src/transport.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index af9b36a..d888e17 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -511,6 +511,11 @@ a0_err_t a0_transport_find_slot(a0_transport_locked_t lk, size_t frame_size, siz
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   a0_transport_state_t* state = a0_transport_working_page(lk);
 
+  // A wrapped-around frame_size, from a huge data size, is smaller than the frame header.
+  if (frame_size < sizeof(a0_transport_frame_hdr_t) || frame_size > hdr->arena_size) {
+    return A0_ERR_FRAME_LARGE;
+  }
+
   bool empty;
   A0_RETURN_ERR_ON_ERR(a0_transport_empty(lk, &empty));
 
-- 
2.43.0


From 17f2464b2fd11610b166b45b12c8f4e4f2f09ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:15 +0000
Subject: [PATCH 02/38] fix: drop a dead writer's uncommitted changes when a
 waiter wakes up

A transport waiter that was woken while the lock owner died kept the
owner's unfinished working page. Its condition was then evaluated on a
frame that was never committed. Reset the working page after every wake
up, as it is done when the lock is taken.
---
 src/transport.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index d888e17..89d0abb 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -168,6 +168,20 @@ a0_err_t a0_transport_init(a0_transport_t* transport, a0_arena_t arena) {
   return A0_OK;
 }
 
+// Sleeps on the transport condition variable, with the lock released.
+A0_STATIC_INLINE
+a0_err_t a0_transport_cnd_timedwait(a0_transport_locked_t lk, a0_time_mono_t* timeout) {
+  a0_transport_hdr_t* hdr = a0_transport_header(lk);
+
+  a0_err_t err = a0_cnd_timedwait(&hdr->cnd, &hdr->mtx, timeout);
+
+  // The lock was acquired anew, possibly from an owner that died.
+  // Clear any incomplete changes.
+  *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
+
+  return err;
+}
+
 a0_err_t a0_transport_shutdown(a0_transport_locked_t lk) {
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
 
@@ -175,7 +189,7 @@ a0_err_t a0_transport_shutdown(a0_transport_locked_t lk) {
   a0_cnd_broadcast(&hdr->cnd, &hdr->mtx);
 
   while (lk.transport->_wait_cnt) {
-    a0_cnd_wait(&hdr->cnd, &hdr->mtx);
+    a0_transport_cnd_timedwait(lk, A0_TIMEOUT_NEVER);
   }
   return A0_OK;
 }
@@ -366,7 +380,7 @@ a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a
   lk.transport->_wait_cnt++;
 
   while (!lk.transport->_shutdown) {
-    err = a0_cnd_timedwait(&hdr->cnd, &hdr->mtx, timeout);
+    err = a0_transport_cnd_timedwait(lk, timeout);
     if (A0_SYSERR(err) == ETIMEDOUT) {
       break;
     }
-- 
2.43.0


From 889e0044ae9ffae18d95cf8fd2182a6d94000592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:49 +0000
Subject: [PATCH 03/38] fix: return invalid deadline errors from transport
 waits

A transport wait with a malformed deadline, such as a nanosecond part of
one second or more, never went to sleep and never returned. It kept the
transport lock while spinning. Report the error to the caller instead.
---
 src/transport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport.c b/src/transport.c
index 89d0abb..9338c65 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -381,7 +381,7 @@ a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a
 
   while (!lk.transport->_shutdown) {
     err = a0_transport_cnd_timedwait(lk, timeout);
-    if (A0_SYSERR(err) == ETIMEDOUT) {
+    if (err && !a0_mtx_previous_owner_died(err)) {
       break;
     }
 
-- 
2.43.0


From 04c49c5b780e3413ec59eabf14d7e66a16769e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:19 +0000
Subject: [PATCH 04/38] fix: publish a new deadman token before the lock is
 seen as taken

Between taking the lock and counting the token up, another process could see
the lock as held and be handed the token of the period before. The word now
carries the owner-died bit until the token is in place. A trylock that races
with a waiter marking itself no longer reports busy.
---
 src/deadman_mtx.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index adda50b..ca97c91 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -44,15 +44,23 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
 
   uint32_t tid = a0_tid();
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
-  if (!a0_ftx_tid(old)) {
-    uint32_t new = (old | tid) & (~FUTEX_OWNER_DIED);
-    if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
+  while (!a0_ftx_tid(old)) {
+    // Until the token is updated, nobody may see this as a new locked period.
+    uint32_t new = old | tid | FUTEX_OWNER_DIED;
+    uint32_t val = a0_cas_val(&d->_stkn->_mtx.ftx, old, new);
+    if (val == old) {
       err = a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
       d->_is_owner = true;
       d->_stkn->_tkn++;
+      a0_barrier();
+      a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_OWNER_DIED);
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+      return err;
     }
-  } else if (a0_ftx_tid(old) == tid) {
+    // A waiter may have marked itself in the meantime.
+    old = val;
+  }
+  if (a0_ftx_tid(old) == tid) {
     err = A0_MAKE_SYSERR(EDEADLK);
   }
 
@@ -217,8 +225,9 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t*
 A0_NO_TSAN
 a0_err_t a0_deadman_mtx_state(a0_deadman_mtx_t* d, a0_deadman_mtx_state_t* out_state) {
   out_state->is_owner = a0_atomic_load(&d->_is_owner);
-  out_state->owner_tid = a0_ftx_tid(a0_atomic_load(&d->_stkn->_mtx.ftx));
-  if (a0_ftx_owner_died(out_state->owner_tid)) {
+  uint32_t ftx = a0_atomic_load(&d->_stkn->_mtx.ftx);
+  out_state->owner_tid = a0_ftx_tid(ftx);
+  if (a0_ftx_owner_died(ftx)) {
     out_state->owner_tid = 0;
   }
   out_state->is_locked = out_state->owner_tid != 0;
-- 
2.43.0


From 3aca577164ce9dc2cb2b666ecfd26a525ad0f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:19 +0000
Subject: [PATCH 05/38] fix: wake every deadman waiter when an owner dies

The kernel wakes a single waiter when a process dies. Waiters now pass the
wake on to everyone waiting for the lock to be free, and a waiter or unlocker
that dies itself does not swallow it. A lock call no longer goes to sleep on a
lock it saw as free.
---
 src/deadman_mtx.c | 31 +++++++++++++++++++++++++++----
 src/ftx.h         | 17 +++++++++++++++++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index ca97c91..e5c2034 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -7,6 +7,7 @@
 #include <a0/time.h>
 
 #include <errno.h>
+#include <limits.h>
 #include <linux/futex.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -33,6 +34,19 @@ a0_err_t a0_deadman_mtx_shutdown(a0_deadman_mtx_t* d) {
   return A0_OK;
 }
 
+#define A0_DEADMAN_MTX_AWAIT_LOCKED 1
+#define A0_DEADMAN_MTX_AWAIT_UNLOCKED 2
+
+A0_STATIC_INLINE
+a0_err_t a0_deadman_mtx_ftx_wait(a0_deadman_mtx_t* d, uint32_t val, a0_time_mono_t* timeout, int bitset) {
+  a0_err_t err = a0_ftx_wait_bitset(&d->_stkn->_mtx.ftx, val, timeout, bitset);
+  // When a process dies, the kernel wakes only one waiter. Pass it on to everyone awaiting an unlock.
+  if (!err && !a0_ftx_tid(a0_atomic_load(&d->_stkn->_mtx.ftx))) {
+    a0_ftx_wake_bitset(&d->_stkn->_mtx.ftx, INT_MAX, A0_DEADMAN_MTX_AWAIT_UNLOCKED);
+  }
+  return err;
+}
+
 A0_STATIC_INLINE
 a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
   if (a0_atomic_load(&d->_shutdown)) {
@@ -98,9 +112,14 @@ a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* time
     }
     err = A0_OK;
 
+    // Unlocked since.
+    if (!a0_ftx_tid(old)) {
+      continue;
+    }
+
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
+      err = a0_deadman_mtx_ftx_wait(d, new, timeout, A0_DEADMAN_MTX_AWAIT_UNLOCKED);
     }
   }
   return err;
@@ -137,12 +156,12 @@ a0_err_t a0_deadman_mtx_unlock(a0_deadman_mtx_t* d) {
   a0_robust_op_del(&d->_stkn->_mtx);
 
   a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, FUTEX_WAITERS);
+  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
 
   a0_robust_op_end(&d->_stkn->_mtx);
   __tsan_mutex_post_unlock(&d->_stkn->_mtx, 0);
 
   d->_is_owner = false;
-  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
   return A0_OK;
 }
 
@@ -161,7 +180,7 @@ a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_
 
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
+      a0_err_t err = a0_deadman_mtx_ftx_wait(d, new, timeout, A0_DEADMAN_MTX_AWAIT_LOCKED);
       if (err && A0_SYSERR(err) != EAGAIN) {
         return err;
       }
@@ -184,7 +203,9 @@ a0_err_t a0_deadman_mtx_timedwait_locked(a0_deadman_mtx_t* d, a0_time_mono_t* ti
   }
 
   a0_atomic_store(&d->_inop, true);
+  a0_robust_op_start(&d->_stkn->_mtx);
   a0_err_t err = a0_deadman_mtx_timedwait_locked_impl(d, timeout, out_tkn);
+  a0_robust_op_end(&d->_stkn->_mtx);
   a0_atomic_store(&d->_inop, false);
   return err;
 }
@@ -204,7 +225,7 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
+      a0_err_t err = a0_deadman_mtx_ftx_wait(d, new, timeout, A0_DEADMAN_MTX_AWAIT_UNLOCKED);
       if (err && A0_SYSERR(err) != EAGAIN) {
         return err;
       }
@@ -217,7 +238,9 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 
 a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t tkn) {
   a0_atomic_store(&d->_inop, true);
+  a0_robust_op_start(&d->_stkn->_mtx);
   a0_err_t err = a0_deadman_mtx_timedwait_unlocked_impl(d, timeout, tkn);
+  a0_robust_op_end(&d->_stkn->_mtx);
   a0_atomic_store(&d->_inop, false);
   return err;
 }
diff --git a/src/ftx.h b/src/ftx.h
index 0068e55..74154bd 100644
--- a/src/ftx.h
+++ b/src/ftx.h
@@ -58,6 +58,23 @@ a0_err_t a0_ftx_wait(a0_ftx_t* ftx, int confirm_val, const a0_time_mono_t* timeo
   return a0_futex(ftx, FUTEX_WAIT_BITSET, confirm_val, (uintptr_t)&ts_mono, NULL, FUTEX_BITSET_MATCH_ANY);
 }
 
+// Like a0_ftx_wait, but a0_ftx_wake_bitset only wakes the waiters with a matching bitset.
+A0_STATIC_INLINE
+a0_err_t a0_ftx_wait_bitset(a0_ftx_t* ftx, int confirm_val, const a0_time_mono_t* timeout, int bitset) {
+  if (!timeout) {
+    return a0_futex(ftx, FUTEX_WAIT_BITSET, confirm_val, 0, NULL, bitset);
+  }
+
+  timespec_t ts_mono;
+  A0_RETURN_ERR_ON_ERR(a0_clock_convert(CLOCK_BOOTTIME, timeout->ts, CLOCK_MONOTONIC, &ts_mono));
+  return a0_futex(ftx, FUTEX_WAIT_BITSET, confirm_val, (uintptr_t)&ts_mono, NULL, bitset);
+}
+
+A0_STATIC_INLINE
+a0_err_t a0_ftx_wake_bitset(a0_ftx_t* ftx, int cnt, int bitset) {
+  return a0_futex(ftx, FUTEX_WAKE_BITSET, cnt, 0, NULL, bitset);
+}
+
 A0_STATIC_INLINE
 a0_err_t a0_ftx_wake(a0_ftx_t* ftx, int cnt) {
   return a0_futex(ftx, FUTEX_WAKE, cnt, 0, NULL, 0);
-- 
2.43.0


From 1bea63af910ab75427b3960fa7f6feb583f82c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:50 +0000
Subject: [PATCH 06/38] fix: check jump offsets without overflow

A huge offset, or a huge size found at the offset, wrapped around the bounds
check. A jump could then point outside the arena.
---
 src/transport.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 9338c65..def8ba6 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -253,12 +253,12 @@ a0_err_t a0_transport_jump(a0_transport_locked_t lk, size_t off) {
   }
 
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
-  if (off + sizeof(a0_transport_frame_hdr_t) >= hdr->arena_size) {
+  if (off >= hdr->arena_size || sizeof(a0_transport_frame_hdr_t) >= hdr->arena_size - off) {
     return A0_ERR_RANGE;
   }
 
   a0_transport_frame_hdr_t* frame_hdr = a0_transport_frame_header(lk, off);
-  if (off + sizeof(a0_transport_frame_hdr_t) + frame_hdr->data_size >= hdr->arena_size) {
+  if (frame_hdr->data_size >= hdr->arena_size - off - sizeof(a0_transport_frame_hdr_t)) {
     return A0_ERR_RANGE;
   }
 
-- 
2.43.0


From fcb8efea4e09dcbdfebdeb73d61961a025646eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:50 +0000
Subject: [PATCH 07/38] fix: report a missing frame from random access

Reading at the offset of a frame that has since been overwritten passed an
uninitialised frame to the callback. The error is now returned instead.
---
 src/reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 5bcd239..e08ed51 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -479,7 +479,11 @@ a0_err_t a0_read_random_access(a0_arena_t arena, size_t off, a0_zero_copy_callba
     return err;
   }
   a0_transport_frame_t* frame;
-  a0_transport_frame(tlk, &frame);
+  err = a0_transport_frame(tlk, &frame);
+  if (err) {
+    a0_transport_unlock(tlk);
+    return err;
+  }
 
   cb.fn(cb.user_data, tlk, (a0_flat_packet_t){{frame->data, frame->hdr.data_size}});
 
-- 
2.43.0


From 1006f4652b38ee239864f7137c46338dd008ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:12 +0000
Subject: [PATCH 08/38] fix: do not copy an empty payload from or to a null
 pointer

A packet without headers and payload has a null buffer, and memcpy may not be
given one even for zero bytes. Serialization already took care of this.
---
 src/packet.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/packet.c b/src/packet.c
index eb14424..85b490e 100644
--- a/src/packet.c
+++ b/src/packet.c
@@ -182,7 +182,9 @@ a0_err_t a0_packet_deserialize(a0_flat_packet_t fpkt, a0_alloc_t alloc, a0_packe
          sizeof(size_t));
 
   out_pkt->payload = (a0_buf_t){write_ptr, in.size - payload_off};
-  memcpy(out_pkt->payload.data, in.data + payload_off, out_pkt->payload.size);
+  if (out_pkt->payload.size) {
+    memcpy(out_pkt->payload.data, in.data + payload_off, out_pkt->payload.size);
+  }
 
   return A0_OK;
 }
@@ -224,7 +226,9 @@ a0_err_t a0_packet_deep_copy(a0_packet_t in, a0_alloc_t alloc, a0_packet_t* out_
   }
 
   out_pkt->payload = (a0_buf_t){out_buf->data + off, in.payload.size};
-  memcpy(out_pkt->payload.data, in.payload.data, in.payload.size);
+  if (out_pkt->payload.size) {
+    memcpy(out_pkt->payload.data, in.payload.data, in.payload.size);
+  }
 
   return A0_OK;
 }
-- 
2.43.0


From be883e3b043738fffc3c7895454a61bbdbc7ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:34 +0000
Subject: [PATCH 09/38] fix: refuse paths with more segments than a pattern can
 hold

---
 src/pathglob.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pathglob.c b/src/pathglob.c
index 3bc738a..3bac9b4 100644
--- a/src/pathglob.c
+++ b/src/pathglob.c
@@ -35,6 +35,10 @@ a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
           type = A0_PATHGLOB_PART_TYPE_RECURSIVE;
         }
       }
+      if (glob->depth + 1 >= A0_PATHGLOB_MAX_DEPTH) {
+        a0_pathglob_close(glob);
+        return A0_ERR_BAD_PATH;
+      }
       glob->parts[glob->depth++] = (a0_pathglob_part_t){
           (a0_buf_t){recent_slash + 1, iter - recent_slash - 1},
           type,
-- 
2.43.0


From e059ca6b7ce728782136524daacadc012c64ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:09 +0000
Subject: [PATCH 10/38] fix: keep the map intact and report the error when hash
 or comparison fails

---
 src/map.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/map.c b/src/map.c
index 1a75f59..f3db6cf 100644
--- a/src/map.c
+++ b/src/map.c
@@ -102,8 +102,9 @@ a0_err_t a0_map_find(a0_map_t* map, const void* key, a0_map_bucket_t* bkt) {
 
 a0_err_t a0_map_has(a0_map_t* map, const void* key, bool* contains) {
   a0_map_bucket_t bkt;
-  *contains = (a0_map_find(map, key, &bkt) == A0_OK);
-  return A0_OK;
+  a0_err_t err = a0_map_find(map, key, &bkt);
+  *contains = (err == A0_OK);
+  return (err == A0_ERR_NOT_FOUND) ? A0_OK : err;
 }
 
 A0_STATIC_INLINE
@@ -153,15 +154,21 @@ a0_err_t a0_map_put(a0_map_t* map, const void* key, const void* val) {
   a0_map_bucket_t iter_bkt;
   A0_RETURN_ERR_ON_ERR(a0_map_bucket(map, new_bkt.idx, &iter_bkt));
 
+  // Once an entry has been displaced, the key is known to be new, and the
+  // displaced entry must find a place: no more (fallible) comparisons.
+  bool displaced = false;
   while (*iter_bkt.off) {
-    int cmp;
-    A0_RETURN_ERR_ON_ERR(a0_cmp_eval(map->_key_cmp, new_bkt.key, iter_bkt.key, &cmp));
+    int cmp = 1;
+    if (!displaced) {
+      A0_RETURN_ERR_ON_ERR(a0_cmp_eval(map->_key_cmp, new_bkt.key, iter_bkt.key, &cmp));
+    }
     if (!cmp) {
       memcpy(iter_bkt.val, new_bkt.val, map->_val_size);
       return A0_OK;
     }
 
     if (*new_bkt.off > *iter_bkt.off) {
+      displaced = true;
       void* tmp_bkt = alloca(map->_bucket_size);
       memcpy(tmp_bkt, iter_bkt.dat, map->_bucket_size);
       memcpy(iter_bkt.dat, new_bkt.dat, map->_bucket_size);
-- 
2.43.0


From d17e4d26b16e97abdfed2373bd303e155b6a009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:19 +0000
Subject: [PATCH 11/38] fix: compare pointers and buffer sizes without
 truncating the difference

---
 src/cmp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cmp.c b/src/cmp.c
index 76d9f77..675067f 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -58,7 +58,9 @@ const a0_hash_t A0_HASH_PTR = {
 
 a0_err_t a0_cmp_ptr_fn(void* user_data, const void* lhs, const void* rhs, int* out) {
   A0_MAYBE_UNUSED(user_data);
-  *out = (int)(*(uintptr_t*)lhs - *(uintptr_t*)rhs);
+  uintptr_t lhs_ptr = *(uintptr_t*)lhs;
+  uintptr_t rhs_ptr = *(uintptr_t*)rhs;
+  *out = (lhs_ptr > rhs_ptr) - (lhs_ptr < rhs_ptr);
   return A0_OK;
 }
 
@@ -93,7 +95,9 @@ a0_err_t a0_cmp_buf_fn(void* user_data, const void* lhs, const void* rhs, int* o
   a0_buf_t* lhs_buf = (a0_buf_t*)lhs;
   a0_buf_t* rhs_buf = (a0_buf_t*)rhs;
   if (lhs_buf->size != rhs_buf->size) {
-    *out = (int)(lhs_buf->size) - (int)(rhs_buf->size);
+    *out = (lhs_buf->size > rhs_buf->size) - (lhs_buf->size < rhs_buf->size);
+  } else if (!lhs_buf->size) {
+    *out = 0;
   } else {
     *out = memcmp(lhs_buf->data, rhs_buf->data, lhs_buf->size);
   }
-- 
2.43.0


From 12c879f34357f3f48fce61e33d16438112e2b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:58 +0000
Subject: [PATCH 12/38] fix: refuse timestamps without a text form and text
 that is too short

---
 src/time.c   | 11 +++++++++--
 src/time.cpp | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/time.c b/src/time.c
index 203af6a..ede0088 100644
--- a/src/time.c
+++ b/src/time.c
@@ -24,7 +24,11 @@ a0_err_t a0_time_mono_now(a0_time_mono_t* out) {
 
 a0_err_t a0_time_mono_str(a0_time_mono_t time_mono, char mono_str[20]) {
   // Mono time as unsigned integer with up to 20 chars: "18446744072709551615"
-  uint64_t ns = time_mono.ts.tv_sec * NS_PER_SEC + time_mono.ts.tv_nsec;
+  // Only 19 digits are stored: "9999999999999999999".
+  if (time_mono.ts.tv_sec < 0 || time_mono.ts.tv_sec > 9999999999) {
+    return A0_ERR_RANGE;
+  }
+  uint64_t ns = (uint64_t)time_mono.ts.tv_sec * NS_PER_SEC + time_mono.ts.tv_nsec;
   mono_str[19] = '\0';
   return a0_u64_to_str(ns, mono_str, mono_str + 19, NULL);
 }
@@ -51,7 +55,10 @@ a0_err_t a0_time_wall_now(a0_time_wall_t* out) {
 a0_err_t a0_time_wall_str(a0_time_wall_t wall_time, char wall_str[36]) {
   // Wall time in RFC 3999 Nano: "2006-01-02T15:04:05.999999999-07:00"
   struct tm wall_tm;
-  gmtime_r(&wall_time.ts.tv_sec, &wall_tm);
+  // The year must have exactly four digits.
+  if (!gmtime_r(&wall_time.ts.tv_sec, &wall_tm) || wall_tm.tm_year < 1000 - 1900 || wall_tm.tm_year > 9999 - 1900) {
+    return A0_ERR_RANGE;
+  }
 
   strftime(&wall_str[0], 20, "%Y-%m-%dT%H:%M:%S", &wall_tm);
   snprintf(&wall_str[19], 17, ".%09ld-00:00", wall_time.ts.tv_nsec);
diff --git a/src/time.cpp b/src/time.cpp
index 9357c75..f121df8 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -31,7 +31,10 @@ std::string TimeMono::to_string() {
 
 TimeMono TimeMono::parse(string_view str) {
   return make_cpp<TimeMono>(
-      [&](a0_time_mono_t* c) {
+      [&](a0_time_mono_t* c) -> a0_err_t {
+        if (str.size() < 19) {
+          return A0_ERR_INVALID_ARG;
+        }
         return a0_time_mono_parse(str.data(), c);
       });
 }
@@ -102,7 +105,10 @@ std::string TimeWall::to_string() {
 
 TimeWall TimeWall::parse(string_view str) {
   return make_cpp<TimeWall>(
-      [&](a0_time_wall_t* c) {
+      [&](a0_time_wall_t* c) -> a0_err_t {
+        if (str.size() < 35) {
+          return A0_ERR_INVALID_ARG;
+        }
         return a0_time_wall_parse(str.data(), c);
       });
 }
-- 
2.43.0


From 996d2684c4f6445d11a9f1075905beedaa5718f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:55 +0000
Subject: [PATCH 13/38] fix: give every thread and forked child its own random
 sequence

---
 src/rand.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/rand.c b/src/rand.c
index b269f7b..18ff27f 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -1,23 +1,38 @@
 #include "rand.h"
 
+#include <a0/inline.h>
 #include <a0/thread_local.h>
 
-#include <fcntl.h>
+#include <pthread.h>
 #include <stdbool.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
-#include <unistd.h>
+#include <sys/random.h>
+#include <sys/types.h>
 
 A0_THREAD_LOCAL uint16_t a0_xsubi[3];
 A0_THREAD_LOCAL bool a0_xsubi_init = false;
 
+static pthread_once_t a0_xsubi_reset_atfork_once = PTHREAD_ONCE_INIT;
+
+A0_STATIC_INLINE
+void a0_xsubi_reset() {
+  a0_xsubi_init = false;
+}
+
+A0_STATIC_INLINE
+void a0_xsubi_reset_atfork() {
+  pthread_atfork(NULL, NULL, &a0_xsubi_reset);
+}
+
 uint32_t a0_mrand48() {
   if (!a0_xsubi_init) {
+    // A forked child must not continue its parent's sequence.
+    pthread_once(&a0_xsubi_reset_atfork_once, a0_xsubi_reset_atfork);
     // TODO(lshamis): error handling.
-    int fd = open("/dev/urandom", O_RDONLY);
-    ssize_t todo_use_this = read(fd, a0_xsubi, sizeof(a0_xsubi));
+    ssize_t todo_use_this = getrandom(a0_xsubi, sizeof(a0_xsubi), 0);
     (void)todo_use_this;
-    close(fd);
     a0_xsubi_init = true;
   }
   return jrand48(a0_xsubi);
-- 
2.43.0


From 370c1537e12bee0ac382020c9c6bae8313ccc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:01 +0000
Subject: [PATCH 14/38] fix: iterate and remove directories relative to the
 root

Directory iteration, and recursive removal with it, looked up a relative
path in the current directory but reported and removed entries below the
configured root. Use the resolved path throughout.
---
 src/file.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file.c b/src/file.c
index 17e4b34..9b989bb 100644
--- a/src/file.c
+++ b/src/file.c
@@ -346,22 +346,22 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
   memcpy(iter->_path, abspath, iter->_path_len + 1);
   free(abspath);
 
-  if (iter->_path[iter->_path_len - 1] != '/') {
-    iter->_path[iter->_path_len] = '/';
-    iter->_path_len++;
-  }
-
   stat_t stat;
-  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(path, &stat));
+  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(iter->_path, &stat));
 
   if (!S_ISDIR(stat.st_mode)) {
     return A0_MAKE_SYSERR(ENOTDIR);
   }
 
-  iter->_dir = opendir(path);
+  iter->_dir = opendir(iter->_path);
   if (!iter->_dir) {
     return A0_MAKE_SYSERR(errno);
   }
+
+  if (iter->_path[iter->_path_len - 1] != '/') {
+    iter->_path[iter->_path_len] = '/';
+    iter->_path_len++;
+  }
   return A0_OK;
 }
 
-- 
2.43.0


From 345316fe5b5018bdc014df88d23f39a90bfd07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:01 +0000
Subject: [PATCH 15/38] fix: refuse directory entries whose full path is too
 long

The iterator copied entry names past the end of its path buffer when the
directory's own path was nearly as long as a path may be.
---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 9b989bb..6ed6beb 100644
--- a/src/file.c
+++ b/src/file.c
@@ -374,6 +374,9 @@ a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
   }
 
   size_t len = strlen(dir_entity->d_name);
+  if (iter->_path_len + len > PATH_MAX) {
+    return A0_MAKE_SYSERR(ENAMETOOLONG);
+  }
 
   entry->filename = dir_entity->d_name;
   entry->fullpath = iter->_path;
-- 
2.43.0


From 7e29eeb4204d90a0643017329e8a85201667be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:52 +0000
Subject: [PATCH 16/38] fix: clean up after failed and lost file creations

Opening a file that does not exist creates a temporary file and links it
into place. When a step failed, the temporary file stayed behind. When
another process linked its file first, the mapping of the temporary file
was never released.
---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 6ed6beb..52179b8 100644
--- a/src/file.c
+++ b/src/file.c
@@ -144,6 +144,7 @@ a0_err_t a0_mktmp(const char* dir, a0_file_create_options_t opts, a0_file_t* fil
     close(file->fd);
     file->fd = -1;
 
+    unlink(path);
     free(path);
     file->path = NULL;
 
@@ -251,6 +252,7 @@ a0_err_t a0_do_open(
     err = a0_mmap(file, &opts->open_options);
     if (err) {
       close(file->fd);
+      unlink(file->path);
       free((void*)file->path);
       file->fd = 0;
       file->path = NULL;
@@ -259,6 +261,7 @@ a0_err_t a0_do_open(
 
     err = a0_tmp_move(file, path);
     if (err) {
+      a0_munmap(file);
       close(file->fd);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From 03e53117cc8580fff55aa351aa7e5b787e2932ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:18 +0000
Subject: [PATCH 17/38] fix: report an error for dangling symlinks instead of
 looping

Opening a path that is a dangling symlink retried forever: the file could
not be opened, and could not be created either.
---
 src/file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file.c b/src/file.c
index 52179b8..ff97d7b 100644
--- a/src/file.c
+++ b/src/file.c
@@ -240,6 +240,12 @@ a0_err_t a0_do_open(
       break;
     }
 
+    // A dangling symlink can be neither opened nor created.
+    stat_t link_stat;
+    if (lstat(path, &link_stat) == 0 && S_ISLNK(link_stat.st_mode)) {
+      break;
+    }
+
     if (!path_copy) {
       path_copy = strdup(path);
       dir = dirname(path_copy);
-- 
2.43.0


From 453d8249dafc7f02884b12be51d73b96efe0d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:12 +0000
Subject: [PATCH 18/38] fix: skip directories that discovery cannot open

The scan went on with an uninitialized iterator when a directory was
removed before it could be opened, or was not readable.
---
 src/discovery.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/discovery.c b/src/discovery.c
index ddd1fe7..4f56f20 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -90,7 +90,10 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
 
   a0_file_iter_t iter;
   a0_file_iter_entry_t entry;
-  a0_file_iter_init(&iter, path);
+  if (a0_file_iter_init(&iter, path)) {
+    // The directory is already gone, or is not readable.
+    return;
+  }
   while (!a0_file_iter_next(&iter, &entry)) {
     if (entry.d_type == DT_DIR) {
       a0_discovery_watch_recursive(d, entry.fullpath);
-- 
2.43.0


From 55b8b319051ffee3e67427e72c1101059c634dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:50 +0000
Subject: [PATCH 19/38] fix: watch directories that are removed and made again

Discovery remembered watched directories by path, so it never watched a
directory that took the place of a removed one.
---
 include/a0/discovery.h |  5 ++---
 src/discovery.c        | 30 ++++++++----------------------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/include/a0/discovery.h b/include/a0/discovery.h
index 43eeb1e..00331d6 100644
--- a/include/a0/discovery.h
+++ b/include/a0/discovery.h
@@ -21,9 +21,8 @@ typedef struct a0_discovery_s {
   a0_discovery_callback_t _callback;
   pthread_t _thread;
 
-  a0_map_t _watch_map;          // inotify watch descriptor -> absolute dir path
-  a0_map_t _reverse_watch_map;  // absolute dir path -> nothing
-  a0_map_t _discovered_map;     // absolute file path -> nothing
+  a0_map_t _watch_map;       // inotify watch descriptor -> absolute dir path
+  a0_map_t _discovered_map;  // absolute file path -> nothing
   int _epoll_fd;
   int _inotify_fd;
   int _close_fd;
diff --git a/src/discovery.c b/src/discovery.c
index 4f56f20..9f02513 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -56,20 +56,21 @@ size_t a0_discovery_rootlen(a0_discovery_t* d) {
 
 A0_STATIC_INLINE
 void a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
-  bool already_watching;
-  a0_map_has(&d->_reverse_watch_map, &path, &already_watching);
-  if (already_watching) {
+  // A directory that is already watched keeps its descriptor. One that was
+  // removed and made again at the same path gets a new one.
+  int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE);
+  if (wd < 0) {
     return;
   }
 
-  int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE);
-  if (wd < 0) {
+  bool already_watching;
+  a0_map_has(&d->_watch_map, &wd, &already_watching);
+  if (already_watching) {
     return;
   }
+
   char* dup = strdup(path);
   a0_map_put(&d->_watch_map, &wd, &dup);
-  int unused = 0;
-  a0_map_put(&d->_reverse_watch_map, &dup, &unused);
 }
 
 A0_STATIC_INLINE
@@ -257,18 +258,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
     return err;
   }
 
-  err = a0_map_init(
-      &d->_reverse_watch_map,
-      sizeof(char*),
-      sizeof(int),
-      A0_HASH_STR,
-      A0_CMP_STR);
-  if (err) {
-    a0_map_close(&d->_watch_map);
-    a0_pathglob_close(&d->_pathglob);
-    return err;
-  }
-
   err = a0_map_init(
       &d->_discovered_map,
       sizeof(char*),
@@ -276,7 +265,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
       A0_HASH_STR,
       A0_CMP_STR);
   if (err) {
-    a0_map_close(&d->_reverse_watch_map);
     a0_map_close(&d->_watch_map);
     a0_pathglob_close(&d->_pathglob);
     return err;
@@ -306,8 +294,6 @@ a0_err_t a0_discovery_close(a0_discovery_t* d) {
     free(*(void**)val);
   }
   a0_map_close(&d->_watch_map);
-  // Note: _reverse_watch_map doesn't own any memory.
-  a0_map_close(&d->_reverse_watch_map);
 
   a0_map_iterator_init(&iter, &d->_discovered_map);
   while (!a0_map_iterator_next(&iter, &key, &val)) {
-- 
2.43.0


From fc9fde4606101b3822137e2e1a1f1ea24da99c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:23 +0000
Subject: [PATCH 20/38] fix: report an error when discovery cannot start

Without descriptors for epoll, eventfd or inotify, or without a thread,
discovery claimed to run but never announced anything or could not be
closed.
---
 src/discovery.c | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/discovery.c b/src/discovery.c
index 9f02513..2a61ee7 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -119,23 +119,27 @@ void a0_discovery_watch_root(a0_discovery_t* d) {
 }
 
 A0_STATIC_INLINE
-void a0_discovery_closefd_init(a0_discovery_t* d, int epoll_fd) {
+a0_err_t a0_discovery_closefd_init(a0_discovery_t* d, int epoll_fd) {
   d->_close_fd = eventfd(0, EFD_NONBLOCK);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_close_fd);
 
   epoll_event_t evt = A0_EMPTY;
   evt.events = EPOLLIN;
   evt.data.fd = d->_close_fd;
-  epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_close_fd, &evt);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_close_fd, &evt));
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
-void a0_discovery_inotify_init(a0_discovery_t* d, int epoll_fd) {
+a0_err_t a0_discovery_inotify_init(a0_discovery_t* d, int epoll_fd) {
   d->_inotify_fd = inotify_init1(IN_NONBLOCK);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_inotify_fd);
 
   epoll_event_t evt = A0_EMPTY;
   evt.events = EPOLLIN;
   evt.data.fd = d->_inotify_fd;
-  epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_inotify_fd, &evt);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_inotify_fd, &evt));
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
@@ -194,8 +198,10 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
 }
 
 A0_STATIC_INLINE
-void a0_discovery_epoll_init(a0_discovery_t* d) {
+a0_err_t a0_discovery_epoll_init(a0_discovery_t* d) {
   d->_epoll_fd = epoll_create1(0);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_epoll_fd);
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
@@ -239,6 +245,16 @@ void* a0_discovery_thread(void* arg) {
   return NULL;
 }
 
+A0_STATIC_INLINE
+a0_err_t a0_discovery_start(a0_discovery_t* d) {
+  A0_RETURN_ERR_ON_ERR(a0_discovery_epoll_init(d));
+  A0_RETURN_ERR_ON_ERR(a0_discovery_closefd_init(d, d->_epoll_fd));
+  A0_RETURN_ERR_ON_ERR(a0_discovery_inotify_init(d, d->_epoll_fd));
+
+  int err = pthread_create(&d->_thread, NULL, a0_discovery_thread, d);
+  return err ? A0_MAKE_SYSERR(err) : A0_OK;
+}
+
 a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_discovery_callback_t callback) {
   d->_callback = callback;
 
@@ -270,13 +286,18 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
     return err;
   }
 
-  a0_discovery_epoll_init(d);
-  a0_discovery_closefd_init(d, d->_epoll_fd);
-  a0_discovery_inotify_init(d, d->_epoll_fd);
+  d->_epoll_fd = d->_close_fd = d->_inotify_fd = -1;
 
-  pthread_create(&d->_thread, NULL, a0_discovery_thread, d);
-
-  return A0_OK;
+  err = a0_discovery_start(d);
+  if (err) {
+    close(d->_inotify_fd);
+    close(d->_close_fd);
+    close(d->_epoll_fd);
+    a0_map_close(&d->_discovered_map);
+    a0_map_close(&d->_watch_map);
+    a0_pathglob_close(&d->_pathglob);
+  }
+  return err;
 }
 
 a0_err_t a0_discovery_close(a0_discovery_t* d) {
-- 
2.43.0


From 5196254260295b7c5f7273b8d2b1572bd85d7b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:44 +0000
Subject: [PATCH 21/38] fix: scan again when discovery lost track

Files created while the kernel's event queue was full were never
announced. Neither were files below the fixed part of the pattern, once
that directory had been removed and made again.
---
 include/a0/discovery.h |  1 +
 src/discovery.c        | 28 ++++++++++++++++++----------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/a0/discovery.h b/include/a0/discovery.h
index 00331d6..97c3eef 100644
--- a/include/a0/discovery.h
+++ b/include/a0/discovery.h
@@ -23,6 +23,7 @@ typedef struct a0_discovery_s {
 
   a0_map_t _watch_map;       // inotify watch descriptor -> absolute dir path
   a0_map_t _discovered_map;  // absolute file path -> nothing
+  int _root_wd;
   int _epoll_fd;
   int _inotify_fd;
   int _close_fd;
diff --git a/src/discovery.c b/src/discovery.c
index 2a61ee7..3bfe078 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -55,22 +55,21 @@ size_t a0_discovery_rootlen(a0_discovery_t* d) {
 }
 
 A0_STATIC_INLINE
-void a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
+int a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
   // A directory that is already watched keeps its descriptor. One that was
   // removed and made again at the same path gets a new one.
   int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE);
   if (wd < 0) {
-    return;
+    return wd;
   }
 
   bool already_watching;
   a0_map_has(&d->_watch_map, &wd, &already_watching);
-  if (already_watching) {
-    return;
+  if (!already_watching) {
+    char* dup = strdup(path);
+    a0_map_put(&d->_watch_map, &wd, &dup);
   }
-
-  char* dup = strdup(path);
-  a0_map_put(&d->_watch_map, &wd, &dup);
+  return wd;
 }
 
 A0_STATIC_INLINE
@@ -111,10 +110,14 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
 
 A0_STATIC_INLINE
 void a0_discovery_watch_root(a0_discovery_t* d) {
-  size_t root_size = a0_discovery_rootlen(d);
   char root_path[PATH_MAX];
-  memcpy(root_path, d->_pathglob.abspath.data, root_size);
-  root_path[root_size] = '\0';
+  do {
+    size_t root_size = a0_discovery_rootlen(d);
+    memcpy(root_path, d->_pathglob.abspath.data, root_size);
+    root_path[root_size] = '\0';
+    d->_root_wd = a0_discovery_watch_path(d, root_path);
+    // The root may be removed before it is watched.
+  } while (d->_root_wd < 0 && errno == ENOENT);
   a0_discovery_watch_recursive(d, root_path);
 }
 
@@ -160,6 +163,11 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
 
   for (size_t i = 0; i < (size_t)buf_size;) {
     inotify_event_t* evt = (inotify_event_t*)&buf[i];
+    bool root_removed = (evt->mask & IN_IGNORED) && evt->wd == d->_root_wd;
+    bool events_lost = evt->mask & IN_Q_OVERFLOW;
+    if (root_removed || events_lost) {
+      a0_discovery_watch_root(d);
+    }
     if (evt->len) {
       a0_buf_t path = (a0_buf_t){(uint8_t*)evt->name, strlen(evt->name)};
 
-- 
2.43.0


From eaaa72b8f7daa581d8a6136eb61b05277b78099e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:11:31 +0000
Subject: [PATCH 22/38] fix: Return an error for packets that do not fit

Packet allocation errors were ignored, so writing a packet larger than
its topic copied it through an uninitialised pointer with the topic
locked. Errors are now returned, and the writer unlocks without
committing.
---
 src/packet.c | 11 ++++++-----
 src/writer.c |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/packet.c b/src/packet.c
index 85b490e..fe89c6c 100644
--- a/src/packet.c
+++ b/src/packet.c
@@ -85,7 +85,7 @@ a0_err_t a0_packet_serialize(a0_packet_t pkt, a0_alloc_t alloc, a0_flat_packet_t
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(pkt, &stats));
 
-  a0_alloc(alloc, stats.serial_size, out);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.serial_size, out));
 
   // Write pointer into index.
   size_t idx_off = 0;
@@ -147,7 +147,7 @@ a0_err_t a0_packet_deserialize(a0_flat_packet_t fpkt, a0_alloc_t alloc, a0_packe
   a0_packet_stats_t stats;
   a0_flat_packet_stats(fpkt, &stats);
 
-  a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf));
 
   uint8_t* write_ptr = out_buf->data;
   out_pkt->headers_block.headers = (a0_packet_header_t*)write_ptr;
@@ -195,9 +195,10 @@ a0_err_t a0_packet_deep_copy(a0_packet_t in, a0_alloc_t alloc, a0_packet_t* out_
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(in, &stats));
 
-  a0_alloc(alloc,
-           stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
-           out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(
+      alloc,
+      stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
+      out_buf));
 
   out_pkt->headers_block.headers = (a0_packet_header_t*)out_buf->data;
   out_pkt->headers_block.size = stats.num_hdrs;
diff --git a/src/writer.c b/src/writer.c
index d539303..46ca1e0 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -95,12 +95,13 @@ a0_err_t a0_write_action_process_locked(void* user_data, a0_transport_locked_t t
 
   a0_alloc_t alloc;
   a0_transport_allocator(&tlk, &alloc);
-  a0_packet_serialize(*pkt, alloc, NULL);
-
-  a0_transport_commit(tlk);
+  a0_err_t err = a0_packet_serialize(*pkt, alloc, NULL);
+  if (!err) {
+    err = a0_transport_commit(tlk);
+  }
   a0_transport_unlock(tlk);
 
-  return A0_OK;
+  return err;
 }
 
 a0_err_t a0_writer_init(a0_writer_t* w, a0_arena_t arena) {
-- 
2.43.0


From 0fc65199e3d2c829c5b6d4722c1292f3ad2f9a76 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 03:12:06 +0000
Subject: [PATCH 23/38] fix: Merge large JSON documents without overflowing the
 stack

The merge middleware took about 24 times the size of both documents from
the stack, so merging into a configuration of a few hundred kilobytes
crashed with the topic locked. The memory now comes from the heap.
---
 src/middleware.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/middleware.c b/src/middleware.c
index eed3849..d06b0ff 100644
--- a/src/middleware.c
+++ b/src/middleware.c
@@ -8,7 +8,6 @@
 #include <a0/unused.h>
 #include <a0/uuid.h>
 
-#include <alloca.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -279,7 +278,23 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
     a0_transport_unlock(tlk);
     return A0_MAKE_MSGERR("Failed to parse json: original json too big");
   }
-  void* original_data = alloca(original_size);
+
+  size_t mergepatch_size = yyjson_read_max_memory_usage(
+      pkt->payload.size, a0_yyjson_read_flags());
+  if (!mergepatch_size) {
+    a0_transport_unlock(tlk);
+    return A0_MAKE_MSGERR("Failed to parse json: mergepatch too big");
+  }
+
+  // Too much for the stack.
+  size_t result_max_size = original_size + mergepatch_size;
+  uint8_t* original_data = (uint8_t*)malloc(original_size + mergepatch_size + result_max_size);
+  if (!original_data) {
+    a0_transport_unlock(tlk);
+    return A0_MAKE_MSGERR("Failed to parse json: out of memory");
+  }
+  uint8_t* mergepatch_data = original_data + original_size;
+  uint8_t* result_data = mergepatch_data + mergepatch_size;
 
   yyjson_alc original_alc;
   yyjson_alc_pool_init(
@@ -295,19 +310,12 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
       &original_alc,
       &read_err);
   if (read_err.code) {
+    free(original_data);
     a0_transport_unlock(tlk);
     return A0_MAKE_MSGERR("Failed to parse json: %s", read_err.msg);
   }
 
   // Parse the mergepatch json.
-  size_t mergepatch_size = yyjson_read_max_memory_usage(
-      pkt->payload.size, a0_yyjson_read_flags());
-  if (!mergepatch_size) {
-    a0_transport_unlock(tlk);
-    return A0_MAKE_MSGERR("Failed to parse json: mergepatch too big");
-  }
-  void* mergepatch_data = alloca(mergepatch_size);
-
   yyjson_alc mergepatch_alc;
   yyjson_alc_pool_init(
       &mergepatch_alc,
@@ -321,6 +329,7 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
       &mergepatch_alc,
       &read_err);
   if (read_err.code) {
+    free(original_data);
     a0_transport_unlock(tlk);
     return A0_MAKE_MSGERR("Failed to parse json: %s", read_err.msg);
   }
@@ -333,9 +342,6 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
       original->root,
       mergepatch->root);
 
-  size_t result_max_size = original_size + mergepatch_size;
-  void* result_data = alloca(result_max_size);
-
   yyjson_alc result_alc;
   yyjson_alc_pool_init(&result_alc, result_data, result_max_size);
 
@@ -350,6 +356,7 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
 
   if (write_err.code) {
     yyjson_mut_doc_free(merged_doc);
+    free(original_data);
     a0_transport_unlock(tlk);
     return A0_MAKE_MSGERR("Failed to serialize cfg: %s", write_err.msg);
   }
@@ -359,6 +366,7 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
   a0_err_t err = a0_middleware_chain(chain, pkt);
 
   yyjson_mut_doc_free(merged_doc);
+  free(original_data);
 
   return err;
 }
-- 
2.43.0


From 81022a8bccb8050fe3ce2754f625a6def468c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:04 +0000
Subject: [PATCH 24/38] fix: Allow C++ servers without a cancel callback

An RPC or progress-RPC server made with an empty cancel callback ended
the process at the first cancellation. The C servers allow this.
---
 src/prpc.cpp | 4 +++-
 src/rpc.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/prpc.cpp b/src/prpc.cpp
index 278d0fe..1905b0a 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -102,7 +102,9 @@ PrpcServer::PrpcServer(
             .user_data = impl,
             .fn = [](void* user_data, a0_uuid_t id) {
               auto* impl = (PrpcServerImpl*)user_data;
-              impl->oncancel(id);
+              if (impl->oncancel) {
+                impl->oncancel(id);
+              }
             }};
 
         return a0_prpc_server_init(c, c_topic, alloc, c_onconnect, c_oncancel);
diff --git a/src/rpc.cpp b/src/rpc.cpp
index 84d5e85..58709a8 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -104,7 +104,9 @@ RpcServer::RpcServer(
             .user_data = impl,
             .fn = [](void* user_data, a0_uuid_t id) {
               auto* impl = (RpcServerImpl*)user_data;
-              impl->oncancel(id);
+              if (impl->oncancel) {
+                impl->oncancel(id);
+              }
             }};
 
         return a0_rpc_server_init(c, c_topic, alloc, c_onrequest, c_oncancel);
-- 
2.43.0


From 25776bf4f519d621838c2cff00a0514cc9b14d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:04 +0000
Subject: [PATCH 25/38] fix: Let RPC clients keep the packets they receive

The C++ RPC and progress-RPC clients passed packets that pointed into a
buffer reused for the next packet. The packet in a returned future was
usually overwritten or freed by the time it was read. The packets now
own their data, as in the other C++ readers.
---
 src/prpc.cpp | 4 +++-
 src/rpc.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/prpc.cpp b/src/prpc.cpp
index 1905b0a..07fe5da 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -184,7 +184,9 @@ void PrpcClient::connect(Packet pkt, std::function<void(Packet, bool /* done */)
             }
           }
 
-          onprogress(Packet(prog, nullptr), done);
+          auto data = std::make_shared<std::vector<uint8_t>>();
+          std::swap(*data, impl->data);
+          onprogress(Packet(prog, [data](a0_packet_t*) {}), done);
         },
     };
   }
diff --git a/src/rpc.cpp b/src/rpc.cpp
index 58709a8..f2c8259 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -184,7 +184,9 @@ void RpcClient::send(Packet pkt, std::function<void(Packet)> onreply) {
             impl->user_onreply.erase(iter);
           }
 
-          onreply(Packet(resp, nullptr));
+          auto data = std::make_shared<std::vector<uint8_t>>();
+          std::swap(*data, impl->data);
+          onreply(Packet(resp, [data](a0_packet_t*) {}));
         },
     };
   }
-- 
2.43.0


From 5fe3dcf2a5c736208122d12bcc07783b179b1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:04 +0000
Subject: [PATCH 26/38] fix: Deliver only progress to progress callbacks

A cancellation sent by another client was delivered to the progress
callback as a progress message, as was any other packet that names the
connection.
---
 src/prpc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prpc.c b/src/prpc.c
index 67b73ec..ce75e4c 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -152,6 +152,9 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
 
   bool is_complete = !strcmp(type_hdr.val, PRPC_TYPE_COMPLETE);
+  if (!is_complete && strcmp(type_hdr.val, PRPC_TYPE_PROGRESS) != 0) {
+    return;
+  }
 
   a0_err_t err;
   a0_prpc_progress_callback_t cb;
-- 
2.43.0


From d5e62e90eb97eeb73757e13f7dbec39b5f080ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:04 +0000
Subject: [PATCH 27/38] fix: Allow progress-RPC connections without a callback

The client called a null pointer at the first progress message of a
connection made with an empty callback.
---
 src/prpc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prpc.c b/src/prpc.c
index ce75e4c..45fc9aa 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -170,7 +170,7 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
   pthread_mutex_unlock(&client->_outstanding_connections_mu);
 
-  if (!err) {
+  if (!err && cb.fn) {
     cb.fn(cb.user_data, pkt, is_complete);
   }
 }
-- 
2.43.0


From 5534a9f79b739040bbcce5ff655da24b8607dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:04 +0000
Subject: [PATCH 28/38] fix: Return only responses from blocking RPC calls

A blocking call returned any packet with its request id in the headers,
such as another request that passes on the headers of an earlier
response.
---
 src/rpc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpc.c b/src/rpc.c
index 148cb0b..314a8f9 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -295,8 +295,11 @@ a0_err_t a0_rpc_client_send_blocking_timeout(a0_rpc_client_t* client, a0_packet_
     if (!memcmp(pkt.id, *reqid, sizeof(a0_uuid_t))) {
       if (!strcmp(rpctype, RPC_TYPE_CANCEL)) {
         err = A0_ERR_CANCELLED;
+        break;
+      }
+      if (!strcmp(rpctype, RPC_TYPE_RESPONSE)) {
+        break;
       }
-      break;
     }
   }
 
-- 
2.43.0


From e27a37cd9a98112790554bba5916a6a5ae9b7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:57 +0000
Subject: [PATCH 29/38] fix: Ignore RPC packets with malformed ids

Clients compared 37 bytes of the request or connection id header, and
servers copied 37 bytes of a cancellation's payload, without looking at
its length. A packet with a shorter one made them read past its end.
---
 src/prpc.c | 6 ++++--
 src/rpc.c  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/prpc.c b/src/prpc.c
index 45fc9aa..de2a18b 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -53,9 +53,10 @@ void a0_prpc_server_onpacket(void* data, a0_packet_t pkt) {
   if (!strcmp(type_hdr.val, PRPC_TYPE_CONNECT)) {
     server->_onconnect.fn(server->_onconnect.user_data, (a0_prpc_connection_t){server, pkt});
   } else if (!strcmp(type_hdr.val, PRPC_TYPE_CANCEL)) {
-    if (server->_oncancel.fn) {
+    if (server->_oncancel.fn && pkt.payload.size == sizeof(a0_uuid_t)) {
       a0_uuid_t uuid;
       memcpy(uuid, pkt.payload.data, sizeof(a0_uuid_t));
+      uuid[sizeof(a0_uuid_t) - 1] = '\0';
       server->_oncancel.fn(server->_oncancel.user_data, uuid);
     }
   }
@@ -141,7 +142,8 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
 
   a0_packet_header_t conn_id_hdr;
   a0_packet_header_iterator_init(&hdr_iter, &pkt);
-  if (a0_packet_header_iterator_next_match(&hdr_iter, CONN_ID, &conn_id_hdr)) {
+  if (a0_packet_header_iterator_next_match(&hdr_iter, CONN_ID, &conn_id_hdr) ||
+      strlen(conn_id_hdr.val) != sizeof(a0_uuid_t) - 1) {
     return;
   }
 
diff --git a/src/rpc.c b/src/rpc.c
index 314a8f9..1c88fe1 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -53,9 +53,10 @@ void a0_rpc_server_onpacket(void* data, a0_packet_t pkt) {
   if (!strcmp(type_hdr.val, RPC_TYPE_REQUEST)) {
     server->_onrequest.fn(server->_onrequest.user_data, (a0_rpc_request_t){server, pkt});
   } else if (!strcmp(type_hdr.val, RPC_TYPE_CANCEL)) {
-    if (server->_oncancel.fn) {
+    if (server->_oncancel.fn && pkt.payload.size == sizeof(a0_uuid_t)) {
       a0_uuid_t uuid;
       memcpy(uuid, pkt.payload.data, sizeof(a0_uuid_t));
+      uuid[sizeof(a0_uuid_t) - 1] = '\0';
       server->_oncancel.fn(server->_oncancel.user_data, uuid);
     }
   }
@@ -150,7 +151,8 @@ a0_err_t a0_find_reqid(a0_packet_t pkt, a0_uuid_t** out) {
   a0_packet_header_t req_id_hdr;
   a0_packet_header_iterator_t hdr_iter;
   a0_packet_header_iterator_init(&hdr_iter, &pkt);
-  if (!a0_packet_header_iterator_next_match(&hdr_iter, REQUEST_ID, &req_id_hdr)) {
+  if (!a0_packet_header_iterator_next_match(&hdr_iter, REQUEST_ID, &req_id_hdr) &&
+      strlen(req_id_hdr.val) == sizeof(a0_uuid_t) - 1) {
     *out = (a0_uuid_t*)req_id_hdr.val;
     return A0_OK;
   }
-- 
2.43.0


From 922893b33f45e0de315fce479f91a99c364c520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:54 +0000
Subject: [PATCH 30/38] fix: Drop uncommitted changes in exclusive mode

Locking and unlocking a shared transport discards an allocation that was never
committed. An exclusive transport skipped this along with the locks, so an
abandoned frame became readable and its sequence number was skipped.
---
 src/transport.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index def8ba6..efb9d82 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -202,14 +202,16 @@ a0_err_t a0_transport_shutdown_requested(a0_transport_locked_t lk, bool* out) {
 a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_out) {
   lk_out->transport = transport;
 
-  if (transport->_arena.mode != A0_ARENA_MODE_SHARED) {
+  if (transport->_arena.mode == A0_ARENA_MODE_READONLY) {
     return A0_OK;
   }
 
-  a0_transport_hdr_t* hdr = a0_transport_header(*lk_out);
+  if (transport->_arena.mode == A0_ARENA_MODE_SHARED) {
+    a0_transport_hdr_t* hdr = a0_transport_header(*lk_out);
 
-  a0_err_t prior_owner_died = a0_mtx_lock(&hdr->mtx);
-  A0_MAYBE_UNUSED(prior_owner_died);
+    a0_err_t prior_owner_died = a0_mtx_lock(&hdr->mtx);
+    A0_MAYBE_UNUSED(prior_owner_died);
+  }
 
   // Clear any incomplete changes.
   *a0_transport_working_page(*lk_out) = *a0_transport_committed_page(*lk_out);
@@ -218,13 +220,16 @@ a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_
 }
 
 a0_err_t a0_transport_unlock(a0_transport_locked_t lk) {
-  if (lk.transport->_arena.mode != A0_ARENA_MODE_SHARED) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
     return A0_OK;
   }
 
   *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
-  a0_transport_hdr_t* hdr = a0_transport_header(lk);
-  a0_mtx_unlock(&hdr->mtx);
+
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_SHARED) {
+    a0_transport_hdr_t* hdr = a0_transport_header(lk);
+    a0_mtx_unlock(&hdr->mtx);
+  }
   return A0_OK;
 }
 
-- 
2.43.0


From 80f15539fce73fa26476fbd388e340b0e2287ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:12 +0000
Subject: [PATCH 31/38] fix: Read only committed frames in read-only mode

Opening a file read-only after a writer died in the middle of a write showed
the unfinished frame. Nothing resets the working state in this mode, so read
the committed state instead.
---
 src/transport.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index efb9d82..20e022d 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -73,6 +73,11 @@ a0_transport_state_t* a0_transport_committed_page(a0_transport_locked_t lk) {
 A0_STATIC_INLINE
 a0_transport_state_t* a0_transport_working_page(a0_transport_locked_t lk) {
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
+  // A read-only transport does not reset the working page, which may hold a
+  // write that was cut short. It has no changes of its own to read either.
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return &hdr->state_pages[hdr->committed_page_idx];
+  }
   return &hdr->state_pages[!hdr->committed_page_idx];
 }
 
-- 
2.43.0


From 4d10250f0b9ad87f65e9d61d216f890057642feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:12 +0000
Subject: [PATCH 32/38] fix: Refuse clear, resize and commit in read-only mode

Allocating in a read-only transport is refused with a permission error. Clear,
resize and commit were accepted, and changed what the opening itself read.
---
 src/transport.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index 20e022d..c08529a 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -696,6 +696,9 @@ a0_err_t a0_transport_allocator(a0_transport_locked_t* lk, a0_alloc_t* alloc_out
 }
 
 a0_err_t a0_transport_commit(a0_transport_locked_t lk) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   // Assume page A was the previously committed page and page B is the working
   // page that is ready to be committed. Both represent a valid state for the
@@ -717,6 +720,10 @@ a0_err_t a0_transport_used_space(a0_transport_locked_t lk, size_t* out) {
 }
 
 a0_err_t a0_transport_resize(a0_transport_locked_t lk, size_t arena_size) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
+
   size_t used_space;
   A0_RETURN_ERR_ON_ERR(a0_transport_used_space(lk, &used_space));
   if (arena_size < used_space) {
@@ -729,6 +736,9 @@ a0_err_t a0_transport_resize(a0_transport_locked_t lk, size_t arena_size) {
 }
 
 a0_err_t a0_transport_clear(a0_transport_locked_t lk) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
   a0_transport_state_t* state = a0_transport_working_page(lk);
   state->seq_low = state->seq_high + 1;
   state->off_head = 0;
-- 
2.43.0


From 203fc5d2338f20af317415f86396a2cee6cc1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:46 +0000
Subject: [PATCH 33/38] fix: Refuse frames from a transport pointer that was
 never placed

An empty transport reported a new pointer as valid and returned the arena header as a frame.
---
 src/transport.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index c08529a..c661aa9 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -252,7 +252,9 @@ a0_err_t a0_transport_nonempty(a0_transport_locked_t lk, bool* out) {
 
 a0_err_t a0_transport_iter_valid(a0_transport_locked_t lk, bool* out) {
   a0_transport_state_t* working_page = a0_transport_working_page(lk);
-  *out = (working_page->seq_low <= lk.transport->_seq) &&
+  // Sequence numbers start at one. Zero is a pointer that was never placed.
+  *out = lk.transport->_seq &&
+         (working_page->seq_low <= lk.transport->_seq) &&
          (lk.transport->_seq <= working_page->seq_high);
   return A0_OK;
 }
@@ -463,9 +465,9 @@ a0_err_t a0_transport_seq_high(a0_transport_locked_t lk, uint64_t* out) {
 }
 
 a0_err_t a0_transport_frame(a0_transport_locked_t lk, a0_transport_frame_t** frame_out) {
-  a0_transport_state_t* state = a0_transport_working_page(lk);
-
-  if (lk.transport->_seq < state->seq_low) {
+  bool valid;
+  A0_RETURN_ERR_ON_ERR(a0_transport_iter_valid(lk, &valid));
+  if (!valid) {
     return A0_MAKE_SYSERR(ESPIPE);
   }
 
-- 
2.43.0


From cc2889d28e6d518ee40481badbabc285e855515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:46 +0000
Subject: [PATCH 34/38] fix: Update the deadman token atomically

Waiters read the token without holding the lock.
---
 src/deadman_mtx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index e5c2034..a054ef4 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -65,7 +65,7 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
     if (val == old) {
       err = a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
       d->_is_owner = true;
-      d->_stkn->_tkn++;
+      a0_atomic_add_fetch(&d->_stkn->_tkn, 1);
       a0_barrier();
       a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_OWNER_DIED);
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
-- 
2.43.0


From d762c8ee36732f81e2e3072debb325bff4d48c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:46 +0000
Subject: [PATCH 35/38] fix: Refuse to close a reader from its own callback

The check compared a pthread handle with a kernel thread id, so it never
matched. The close then returned while its callback was still running, and
subscribers and the like unmapped the file under it.
---
 src/cfg.c    | 2 +-
 src/log.c    | 2 +-
 src/prpc.c   | 4 ++--
 src/pubsub.c | 4 ++--
 src/reader.c | 2 +-
 src/rpc.c    | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cfg.c b/src/cfg.c
index ea96204..53935f6 100644
--- a/src/cfg.c
+++ b/src/cfg.c
@@ -127,7 +127,7 @@ a0_err_t a0_cfg_watcher_init(a0_cfg_watcher_t* cw,
 }
 
 a0_err_t a0_cfg_watcher_close(a0_cfg_watcher_t* cw) {
-  a0_reader_close(&cw->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&cw->_reader));
   a0_file_close(&cw->_file);
   return A0_OK;
 }
diff --git a/src/log.c b/src/log.c
index 0923f8b..4b31f25 100644
--- a/src/log.c
+++ b/src/log.c
@@ -164,7 +164,7 @@ a0_err_t a0_log_listener_init(a0_log_listener_t* log_list,
 }
 
 a0_err_t a0_log_listener_close(a0_log_listener_t* log_list) {
-  a0_reader_close(&log_list->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&log_list->_reader));
   a0_file_close(&log_list->_file);
   return A0_OK;
 }
diff --git a/src/prpc.c b/src/prpc.c
index de2a18b..69bdbc1 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -106,7 +106,7 @@ a0_err_t a0_prpc_server_init(a0_prpc_server_t* server,
 }
 
 a0_err_t a0_prpc_server_close(a0_prpc_server_t* server) {
-  a0_reader_close(&server->_connection_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_connection_reader));
   a0_writer_close(&server->_progress_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -235,7 +235,7 @@ a0_err_t a0_prpc_client_init(a0_prpc_client_t* client,
 }
 
 a0_err_t a0_prpc_client_close(a0_prpc_client_t* client) {
-  a0_reader_close(&client->_progress_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_progress_reader));
   a0_writer_close(&client->_connection_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_connections);
diff --git a/src/pubsub.c b/src/pubsub.c
index fd959dd..035af30 100644
--- a/src/pubsub.c
+++ b/src/pubsub.c
@@ -168,7 +168,7 @@ a0_err_t a0_subscriber_zc_init(a0_subscriber_zc_t* sub_zc,
 }
 
 a0_err_t a0_subscriber_zc_close(a0_subscriber_zc_t* sub_zc) {
-  a0_reader_zc_close(&sub_zc->_reader_zc);
+  A0_RETURN_ERR_ON_ERR(a0_reader_zc_close(&sub_zc->_reader_zc));
   a0_file_close(&sub_zc->_file);
   return A0_OK;
 }
@@ -197,7 +197,7 @@ a0_err_t a0_subscriber_init(a0_subscriber_t* sub,
 }
 
 a0_err_t a0_subscriber_close(a0_subscriber_t* sub) {
-  a0_reader_close(&sub->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&sub->_reader));
   a0_file_close(&sub->_file);
   return A0_OK;
 }
diff --git a/src/reader.c b/src/reader.c
index e08ed51..5db9e23 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -413,7 +413,7 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
 a0_err_t a0_reader_zc_close(a0_reader_zc_t* reader_zc) {
   a0_event_wait(&reader_zc->_thread_start_event);
-  if (pthread_equal(pthread_self(), reader_zc->_thread_id)) {
+  if (a0_tid() == reader_zc->_thread_id) {
     return A0_MAKE_SYSERR(EDEADLK);
   }
 #ifdef DEBUG
diff --git a/src/rpc.c b/src/rpc.c
index 1c88fe1..0b0fa07 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -106,7 +106,7 @@ a0_err_t a0_rpc_server_init(a0_rpc_server_t* server,
 }
 
 a0_err_t a0_rpc_server_close(a0_rpc_server_t* server) {
-  a0_reader_close(&server->_request_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_request_reader));
   a0_writer_close(&server->_response_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -239,7 +239,7 @@ a0_err_t a0_rpc_client_init(a0_rpc_client_t* client,
 }
 
 a0_err_t a0_rpc_client_close(a0_rpc_client_t* client) {
-  a0_reader_close(&client->_response_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_response_reader));
   a0_writer_close(&client->_request_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_requests);
-- 
2.43.0


From 46c9db950f9d5fb7bb1d979e9cf1744df71e977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:32 +0000
Subject: [PATCH 36/38] fix: Hash ids that are not ASCII without reading out of
 bounds

The table that maps hex digits to values had 128 entries. A packet from
another program can carry any bytes as a request or connection id, and
looking such an id up read past the end of the table.
---
 src/cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmp.c b/src/cmp.c
index 675067f..3b3c970 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -144,7 +144,7 @@ const a0_cmp_t A0_CMP_STR = {
 //////////////////
 
 // clang-format off
-static const uint8_t UNHEX_VALUES[] = {
+static const uint8_t UNHEX_VALUES[256] = {
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
-- 
2.43.0


From 6f055f7879dd16f59d9c908a243cf5a6cfb021a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:32 +0000
Subject: [PATCH 37/38] fix: Report a failing allocator to the reader's caller

When the allocator given to a reader failed, a read returned success with
a packet that was never filled in, and a background reader called back
with one. The read now returns the allocator's error. A background reader
skips the packet.
---
 src/reader.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 5db9e23..ac10580 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -251,6 +251,7 @@ a0_err_t a0_reader_sync_can_read(a0_reader_sync_t* reader_sync, bool* can_read)
 typedef struct a0_reader_sync_read_data_s {
   a0_alloc_t alloc;
   a0_packet_t* out_pkt;
+  a0_err_t err;
 } a0_reader_sync_read_data_t;
 
 A0_STATIC_INLINE
@@ -258,7 +259,7 @@ void a0_reader_sync_read_impl(void* user_data, a0_transport_locked_t tlk, a0_fla
   A0_MAYBE_UNUSED(tlk);
   a0_reader_sync_read_data_t* data = (a0_reader_sync_read_data_t*)user_data;
   a0_buf_t unused;
-  a0_packet_deserialize(fpkt, data->alloc, data->out_pkt, &unused);
+  data->err = a0_packet_deserialize(fpkt, data->alloc, data->out_pkt, &unused);
 }
 
 a0_err_t a0_reader_sync_read(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
@@ -272,7 +273,8 @@ a0_err_t a0_reader_sync_read(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
       .user_data = &data,
       .fn = a0_reader_sync_read_impl,
   };
-  return a0_reader_sync_zc_read(&reader_sync->_reader_sync_zc, zc_cb);
+  A0_RETURN_ERR_ON_ERR(a0_reader_sync_zc_read(&reader_sync->_reader_sync_zc, zc_cb));
+  return data.err;
 }
 
 a0_err_t a0_reader_sync_read_blocking(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
@@ -290,7 +292,8 @@ a0_err_t a0_reader_sync_read_blocking_timeout(a0_reader_sync_t* reader_sync, a0_
       .user_data = &data,
       .fn = a0_reader_sync_read_impl,
   };
-  return a0_reader_sync_zc_read_blocking_timeout(&reader_sync->_reader_sync_zc, timeout, zc_cb);
+  A0_RETURN_ERR_ON_ERR(a0_reader_sync_zc_read_blocking_timeout(&reader_sync->_reader_sync_zc, timeout, zc_cb));
+  return data.err;
 }
 
 // Threaded zero-copy version.
@@ -437,7 +440,10 @@ void a0_reader_onpacket_wrapper(void* user_data, a0_transport_locked_t tlk, a0_f
   a0_reader_t* reader = (a0_reader_t*)user_data;
   a0_packet_t pkt;
   a0_buf_t buf;
-  a0_packet_deserialize(fpkt, reader->_alloc, &pkt, &buf);
+  if (a0_packet_deserialize(fpkt, reader->_alloc, &pkt, &buf)) {
+    // There is no memory for this packet.
+    return;
+  }
   a0_transport_unlock(tlk);
 
   a0_packet_callback_call(reader->_onpacket, pkt);
-- 
2.43.0


From 56cafab8f154ddf4de61c9efa0a45119df03b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:32 +0000
Subject: [PATCH 38/38] fix: Report that a reader's thread could not be started

Creating a reader succeeded even if its thread could not be started. It
then delivered nothing, and closing it waited forever for the thread.
---
 src/reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index ac10580..ca770b5 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -405,11 +405,17 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
   a0_transport_unlock(tlk);
 
-  pthread_create(
+  int err = pthread_create(
       &reader_zc->_thread,
       NULL,
       a0_reader_zc_thread_main,
       reader_zc);
+  if (err) {
+#ifdef DEBUG
+    a0_ref_cnt_dec(arena.buf.data, NULL);
+#endif
+    return A0_MAKE_SYSERR(err);
+  }
 
   return A0_OK;
 }
-- 
2.43.0

