From d0ad1743334ee7060c5a15b010172d54df7b24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 01/73] fix: AsyncWaiter could lose the wakeup of a waiter that
 registers while the turn is released

The turn was tested and the waker registered in two steps: an unlock() on another
thread between them found an empty queue, and the waiter was never woken. The waker
was also woken with the queue's mutex held.
---
 src/async_waiter.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index 1ccc28a..ffd7f00 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -45,6 +45,10 @@ impl AsyncWaiter {
     /// Uses `compare_exchange` for correctness even though current callers are
     /// single-threaded (all on the same LocalSet).
     pub fn try_lock(&self, cx: &mut Context<'_>) -> bool {
+        // Held across the attempt and the registration, so that an `unlock()` on
+        // another thread cannot fall between them and leave this waiter unwoken.
+        let mut queue = self.queue.lock().unwrap();
+
         if self
             .locked
             .compare_exchange(false, true, Ordering::AcqRel, Ordering::Acquire)
@@ -52,16 +56,20 @@ impl AsyncWaiter {
         {
             true
         } else {
-            self.queue.lock().unwrap().push_back(cx.waker().clone());
+            queue.push_back(cx.waker().clone());
             false
         }
     }
 
     /// Release the turn. Wakes the next waiter in FIFO order.
     pub fn unlock(&self) {
-        self.locked.store(false, Ordering::Release);
+        let next = {
+            let mut queue = self.queue.lock().unwrap();
+            self.locked.store(false, Ordering::Release);
+            queue.pop_front()
+        };
 
-        if let Some(waker) = self.queue.lock().unwrap().pop_front() {
+        if let Some(waker) = next {
             waker.wake();
         }
     }
-- 
2.43.0


From 93afca2202e6369e50e1739a6bac90f14d94cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 02/73] fix: AsyncWaiter let a stale registration of the turn's
 owner consume the next waiter's wakeup

A waiter that polls more than once is registered more than once; when it got the
turn, its other registrations stayed queued and unlock() woke it instead of the
request that was waiting behind it.
---
 src/async_waiter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index ffd7f00..e516bc5 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -54,6 +54,9 @@ impl AsyncWaiter {
             .compare_exchange(false, true, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
         {
+            // A waiter may have polled more than once: its other registrations
+            // must not consume a wakeup that the next waiter needs.
+            queue.retain(|waker| !waker.will_wake(cx.waker()));
             true
         } else {
             queue.push_back(cx.waker().clone());
-- 
2.43.0


From 311f4a8e1c0f634845d3f9c2796e81c6896c6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 03/73] fix: StreamManager put the receiver of a stream closed
 during a read back into the table

---
 src/runtime/stream_manager.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index b8958ca..360a13d 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -137,7 +137,11 @@ impl StreamManager {
                         // Don't put back - stream is finished
                     }
                     StreamChunk::Data(_) => {
-                        self.receivers.lock().unwrap().insert(stream_id, rx);
+                        // A stream that was closed during the read stays closed
+                        let mut receivers = self.receivers.lock().unwrap();
+                        if self.metadata.lock().unwrap().contains_key(&stream_id) {
+                            receivers.insert(stream_id, rx);
+                        }
                     }
                 }
             }
@@ -160,8 +164,9 @@ impl StreamManager {
     /// Close and remove a stream
     pub fn close_stream(&self, stream_id: StreamId) {
         self.senders.lock().unwrap().remove(&stream_id);
-        self.receivers.lock().unwrap().remove(&stream_id);
+        // Before the receiver: a read in flight checks it before putting its receiver back
         self.metadata.lock().unwrap().remove(&stream_id);
+        self.receivers.lock().unwrap().remove(&stream_id);
     }
 
     /// Get information about a stream (for debugging)
@@ -172,8 +177,8 @@ impl StreamManager {
     /// Clear all streams (used for context reuse between requests)
     pub fn clear(&self) {
         self.senders.lock().unwrap().clear();
-        self.receivers.lock().unwrap().clear();
         self.metadata.lock().unwrap().clear();
+        self.receivers.lock().unwrap().clear();
         // Reset next_id so stream IDs don't grow unbounded across reuses
         *self.next_id.lock().unwrap() = 1;
     }
-- 
2.43.0


From 195fe87e78700d14385a6ceba8e0116790edb94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 04/73] fix: StreamManager::clear reused stream IDs that tasks
 of the previous request still hold

---
 src/runtime/stream_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 360a13d..90a1e91 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -179,8 +179,8 @@ impl StreamManager {
         self.senders.lock().unwrap().clear();
         self.metadata.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
-        // Reset next_id so stream IDs don't grow unbounded across reuses
-        *self.next_id.lock().unwrap() = 1;
+        // next_id goes on: a pump or reader of the previous request may still hold an
+        // old ID, which must not name a stream of the next request
     }
 
     /// Count active streams
-- 
2.43.0


From f0b3150d2c340dd96ded8033cd053b608def1171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 05/73] fix: pump_request_body sent Done after a body error

---
 src/runtime/stream_manager.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 90a1e91..daf3670 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -224,7 +224,8 @@ impl StreamManager {
                         let _ = stream_manager
                             .write_chunk(stream_id, StreamChunk::Error(e))
                             .await;
-                        break;
+                        // The error is the end of the stream
+                        return;
                     }
                 }
             }
-- 
2.43.0


From 3829d6603983d2663e1f1608dd60ec81a7bdcab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 06/73] fix: ExternalMemoryGuard reported changes to whichever
 isolate was locked instead of its own

---
 src/gc/external_memory.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/gc/external_memory.rs b/src/gc/external_memory.rs
index 606a789..1f4cc01 100644
--- a/src/gc/external_memory.rs
+++ b/src/gc/external_memory.rs
@@ -88,15 +88,28 @@ impl ExternalMemoryGuard {
         if delta != 0 {
             self.amount += delta;
 
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(delta);
+            if self.pending_delta.is_some() {
+                self.report(delta);
+            } else if let Some(lock) = JsLock::try_current() {
+                // No isolate was told of this guard yet: from now on it belongs
+                // to this one, with everything it tracks so far.
+                lock.adjust_external_memory(self.amount);
+                self.pending_delta = Some(lock.pending_delta());
+            }
+        }
+    }
 
-                // Capture the pending delta if we didn't have one yet
-                if self.pending_delta.is_none() {
-                    self.pending_delta = Some(lock.pending_delta());
+    /// Report a change to the isolate this guard belongs to: immediately if it
+    /// is the one currently locked by this thread, deferred otherwise.
+    fn report(&self, delta: i64) {
+        if let Some(ref pending) = self.pending_delta {
+            match JsLock::try_current() {
+                Some(lock) if Arc::ptr_eq(&lock.pending_delta(), pending) => {
+                    lock.adjust_external_memory(delta);
+                }
+                _ => {
+                    pending.fetch_add(delta, Ordering::SeqCst);
                 }
-            } else if let Some(ref pending) = self.pending_delta {
-                pending.fetch_add(delta, Ordering::SeqCst);
             }
         }
     }
@@ -117,14 +130,9 @@ impl ExternalMemoryGuard {
 impl Drop for ExternalMemoryGuard {
     fn drop(&mut self) {
         if self.amount != 0 {
-            // Subtract our tracked memory
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(-self.amount);
-            } else if let Some(ref pending) = self.pending_delta {
-                pending.fetch_add(-self.amount, Ordering::SeqCst);
-            }
-            // else: no lock and no captured isolate — memory tracking lost.
-            // This only happens for guards created without a JsLock (tests).
+            // Subtract our tracked memory. Without a captured isolate, nothing was
+            // ever added: such guards are created without a JsLock (tests).
+            self.report(-self.amount);
         }
     }
 }
-- 
2.43.0


From 3ce0576c7cff490a79c16c8803651b4087a312bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 07/73] fix: DeferredDestructionQueue's count could wrap around
 and hide pending handles

---
 src/gc/deferred_destruction.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/gc/deferred_destruction.rs b/src/gc/deferred_destruction.rs
index eb9a4b2..25d0823 100644
--- a/src/gc/deferred_destruction.rs
+++ b/src/gc/deferred_destruction.rs
@@ -111,11 +111,17 @@ impl DeferredDestructionQueue {
     /// holding the isolate lock.
     pub fn defer<T: 'static>(&self, handle: v8::Global<T>) {
         let deferred = DeferredHandle::new(handle);
-        self.queue
-            .lock()
-            .expect("deferred destruction queue poisoned")
-            .push_back(deferred);
-        self.pending_count.fetch_add(1, Ordering::Release);
+
+        {
+            let mut queue = self
+                .queue
+                .lock()
+                .expect("deferred destruction queue poisoned");
+            queue.push_back(deferred);
+            // Counted before the lock is released: process_all() must never
+            // subtract a handle that has not been added to the count yet.
+            self.pending_count.fetch_add(1, Ordering::Release);
+        }
 
         tracing::trace!("Deferred V8 handle destruction (pending: {})", self.len());
     }
-- 
2.43.0


From f950c4451fc484848481c5345e06836c598f3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 08/73] fix: concurrent array buffer allocations could be
 refused although they fit

---
 src/security/array_buffer_allocator.rs | 55 ++++++++++++--------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/security/array_buffer_allocator.rs b/src/security/array_buffer_allocator.rs
index 9571eac..05b7463 100644
--- a/src/security/array_buffer_allocator.rs
+++ b/src/security/array_buffer_allocator.rs
@@ -69,6 +69,28 @@ impl CustomAllocator {
         unsafe { v8::new_rust_allocator(Arc::into_raw(self), vtable) }
     }
 
+    /// Take n bytes of the quota if they fit, in one atomic step: bytes of an
+    /// allocation that is refused must not make a concurrent one fail.
+    fn reserve(&self, n: usize) -> bool {
+        let reserved = self
+            .count
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |count| {
+                count.checked_add(n).filter(|total| *total <= self.max)
+            });
+
+        if let Err(count) = reserved {
+            eprintln!(
+                "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
+                count.saturating_add(n) / 1024 / 1024,
+                self.max / 1024 / 1024
+            );
+            // Set flag so the runtime knows why we failed
+            self.memory_limit_hit.store(true, Ordering::SeqCst);
+        }
+
+        reserved.is_ok()
+    }
+
     /// Get current memory usage in bytes.
     #[allow(dead_code)]
     pub fn current_usage(&self) -> usize {
@@ -80,24 +102,8 @@ impl CustomAllocator {
 /// Returns a pointer to zeroed memory, or NULL if the limit is exceeded.
 #[allow(clippy::unnecessary_cast)]
 unsafe extern "C" fn allocate(allocator: &CustomAllocator, n: usize) -> *mut c_void {
-    // Optimistically add n bytes to our running total (atomic, thread-safe)
-    allocator.count.fetch_add(n, Ordering::SeqCst);
-
-    // Read the new total to check against the limit
-    let count_loaded = allocator.count.load(Ordering::SeqCst);
-
-    // If we've exceeded the limit, reject the allocation
-    if count_loaded > allocator.max {
-        eprintln!(
-            "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
-            count_loaded / 1024 / 1024,
-            allocator.max / 1024 / 1024
-        );
-        // Set flag so the runtime knows why we failed
-        allocator.memory_limit_hit.store(true, Ordering::SeqCst);
-        // IMPORTANT: rollback the count since we're not actually allocating
-        // Without this, failed allocations would permanently "use up" the quota
-        allocator.count.fetch_sub(n, Ordering::SeqCst);
+    // If it would exceed the limit, reject the allocation
+    if !allocator.reserve(n) {
         // Return NULL - V8 will throw RangeError: Array buffer allocation failed
         return std::ptr::null::<*mut [u8]>() as *mut c_void;
     }
@@ -115,18 +121,7 @@ unsafe extern "C" fn allocate(allocator: &CustomAllocator, n: usize) -> *mut c_v
 #[allow(clippy::unnecessary_cast)]
 #[allow(clippy::uninit_vec)]
 unsafe extern "C" fn allocate_uninitialized(allocator: &CustomAllocator, n: usize) -> *mut c_void {
-    allocator.count.fetch_add(n, Ordering::SeqCst);
-
-    let count_loaded = allocator.count.load(Ordering::SeqCst);
-
-    if count_loaded > allocator.max {
-        eprintln!(
-            "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
-            count_loaded / 1024 / 1024,
-            allocator.max / 1024 / 1024
-        );
-        allocator.memory_limit_hit.store(true, Ordering::SeqCst);
-        allocator.count.fetch_sub(n, Ordering::SeqCst);
+    if !allocator.reserve(n) {
         return std::ptr::null::<*mut [u8]>() as *mut c_void;
     }
 
-- 
2.43.0


From c086e6d15751d28dd0deb56a4bef3a85f7b4d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 09/73] fix: a cancelled stream settles its pending reads and
 drops its queue

cancel() left the reads that were waiting pending for ever (reader.cancel() even
threw, because they kept the lock from being released), and what was queued could
still be read after the cancellation.
---
 src/runtime/streams.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index a3e69e3..0e9071d 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -49,8 +49,12 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._controller._abortController.abort(reason || 'Stream cancelled');
                 }
 
+                // Drop what was not read; pending reads end with the stream
+                this._controller._queue = [];
+
                 // Clear reader
                 if (this._reader) {
+                    this._reader._processQueue();
                     this._reader._closePending();
                     this._reader = null;
                 }
-- 
2.43.0


From 7a36104396253f5446afbbee0a3bdfd615591ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 10/73] fix: a pull() that throws errors the stream

The read in progress was rejected by the promise constructor, but its request stayed
queued (swallowing the next chunk) and the stream remained readable.
---
 src/runtime/streams.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 0e9071d..1cd1995 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -331,7 +331,13 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                         // Call pull to request more data
                         // pull() should enqueue data or close/error the stream
-                        const pullPromise = underlyingSource.pull(controller);
+                        let pullPromise;
+                        try {
+                            pullPromise = underlyingSource.pull(controller);
+                        } catch (e) {
+                            controller.error(e);
+                            return;
+                        }
                         if (pullPromise && typeof pullPromise.then === 'function') {
                             pullPromise.catch(e => {
                                 controller.error(e);
-- 
2.43.0


From 38a5d02fc747e8ee42eb80828e4ec21f94a4e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 11/73] fix: releasing a reader does not take another reader's
 lock

stream.cancel() frees the lock without releasing the reader; when that reader was
released later, it unlocked the stream under the reader that had acquired it since.
---
 src/runtime/streams.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 1cd1995..4886a4a 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -407,7 +407,10 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     throw new TypeError('Cannot release lock while read requests are pending');
                 }
 
-                this._stream._reader = null;
+                // The lock may have passed to another reader after stream.cancel()
+                if (this._stream._reader === this) {
+                    this._stream._reader = null;
+                }
                 this._stream = null;
             }
 
-- 
2.43.0


From f7014c5888dc4f676034716e28ac8f7c64832164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 12/73] fix: reader.closed settles for a stream that has
 already ended

A reader acquired after the stream was closed or errored had a closed promise that
never settled.
---
 src/runtime/streams.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 4886a4a..0bb968b 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -291,6 +291,14 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._closedPromiseResolve = resolve;
                     this._closedPromiseReject = reject;
                 });
+
+                // The stream may have ended before
+                if (stream._state === 'closed') {
+                    this._closedPromiseResolve();
+                } else if (stream._state === 'errored') {
+                    this._closedPromiseReject(stream._storedError);
+                    this._closedPromise.catch(() => {});
+                }
             }
 
             read() {
-- 
2.43.0


From fb4ce31baf04665c61e0080e1cda9befa0a49d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:11 +0000
Subject: [PATCH 13/73] fix: a tee branch with several reads waiting gets a
 chunk for each

A read made while the shared read was in progress joined it and was not served by it;
nothing read the source again on its behalf, so it waited until some later read.
---
 src/runtime/streams.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 0bb968b..2b76511 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -100,6 +100,10 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 return value;
             }
 
+            function hasPendingRead(branch) {
+                return branch._reader !== null && branch._reader._readRequests.length > 0;
+            }
+
             function pullBoth(controller1, controller2) {
                 if (closedOrErrored) {
                     return Promise.resolve();
@@ -131,6 +135,11 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     if (!canceled2) {
                         controller2.enqueue(cloneValue(value));
                     }
+
+                    // Reads made while this one was in progress need another
+                    if (hasPendingRead(branch1) || hasPendingRead(branch2)) {
+                        return pullBoth(controller1, controller2);
+                    }
                 }).catch(e => {
                     readPromise = null;
 
-- 
2.43.0


From 5c86033949aed6f58bfb4ebea9a9c5d8bbc1c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 14/73] fix: TextEncoder.encodeInto writes whole characters and
 counts code units

It cut a character that did not fit in two, and reported the bytes written as the
code units read, so that a caller that continues from there loses or repeats text.
---
 src/runtime/text_encoding.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index d278535..2296686 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -153,9 +153,25 @@ pub const TEXT_ENCODING_JS: &str = r#"
 
         encodeInto(source, destination) {
             const encoded = __text_encode(source);
-            const len = Math.min(encoded.length, destination.length);
-            destination.set(encoded.subarray(0, len));
-            return { read: len, written: len };
+            let written = Math.min(encoded.length, destination.length);
+
+            // Only whole characters: do not stop before a continuation byte
+            while (written < encoded.length && (encoded[written] & 0xc0) === 0x80) {
+                written--;
+            }
+
+            destination.set(encoded.subarray(0, written));
+
+            // UTF-16 code units: two for a character of four bytes
+            let read = 0;
+
+            for (let i = 0; i < written; i++) {
+                if ((encoded[i] & 0xc0) !== 0x80) {
+                    read += encoded[i] >= 0xf0 ? 2 : 1;
+                }
+            }
+
+            return { read, written };
         }
     };
 
-- 
2.43.0


From 01d35da00e2c4af3e60a6f90c697247e64d95acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 15/73] fix: TextEncoder.encode() without an argument is empty

It encoded the text "undefined".
---
 src/runtime/text_encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index 2296686..01ee93c 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -147,7 +147,7 @@ pub const TEXT_ENCODING_JS: &str = r#"
             this.encoding = 'utf-8';
         }
 
-        encode(input) {
+        encode(input = '') {
             return __text_encode(input);
         }
 
-- 
2.43.0


From aee6c0f74f79be0ef6c0958e173ddc1a5befa416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 16/73] fix: TextDecoder removes the byte order mark unless
 told to ignore it

The mark stayed in the text as U+FEFF whatever ignoreBOM said, so that for example
JSON.parse of a decoded body with a mark failed.
---
 src/runtime/text_encoding.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index 01ee93c..bfd8d1c 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -81,6 +81,9 @@ fn text_decode(
         false
     };
 
+    // Get ignoreBOM flag: if true, a byte order mark is kept as text
+    let ignore_bom = args.length() > 3 && args.get(3).boolean_value(scope);
+
     // Look up encoding
     let encoding = match encoding_rs::Encoding::for_label(encoding_label.as_bytes()) {
         Some(enc) => enc,
@@ -99,10 +102,14 @@ fn text_decode(
         }
     };
 
+    let (decoded, had_errors) = if ignore_bom {
+        encoding.decode_without_bom_handling(&bytes)
+    } else {
+        encoding.decode_with_bom_removal(&bytes)
+    };
+
     let result = if fatal {
         // Fatal mode: return error on invalid sequences
-        let (decoded, had_errors) = encoding.decode_without_bom_handling(&bytes);
-
         if had_errors {
             let msg = v8::String::new(scope, "TextDecoder: invalid byte sequence").unwrap();
             let exc = v8::Exception::type_error(scope, msg);
@@ -113,7 +120,6 @@ fn text_decode(
         decoded.into_owned()
     } else {
         // Replacement mode: replace invalid sequences with U+FFFD
-        let (decoded, _) = encoding.decode_without_bom_handling(&bytes);
         decoded.into_owned()
     };
 
@@ -220,7 +226,7 @@ pub const TEXT_ENCODING_JS: &str = r#"
                         ? new Uint8Array(input)
                         : input;
 
-            return __text_decode(bytes, this.#encoding, this.#fatal);
+            return __text_decode(bytes, this.#encoding, this.#fatal, this.#ignoreBOM);
         }
     };
 "#;
-- 
2.43.0


From 9c6cd2ae277ff2b27b27a68f8e4e3fec1533c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 17/73] fix: getRandomValues fills every integer typed array or
 throws

---
 src/runtime/crypto/random.rs | 41 +++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 882821d..673ee4c 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -7,14 +7,35 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
         |scope: &mut v8::PinScope,
          args: v8::FunctionCallbackArguments,
          mut retval: v8::ReturnValue| {
-            if args.length() < 1 {
-                return;
-            }
-
             let array = args.get(0);
 
-            if let Ok(uint8_array) = v8::Local::<v8::Uint8Array>::try_from(array) {
-                let len = uint8_array.byte_length();
+            // Every integer-typed array can be filled; anything else is an error,
+            // so that no caller takes an untouched array for random values.
+            let is_integer_array = array.is_uint8_array()
+                || array.is_uint8_clamped_array()
+                || array.is_int8_array()
+                || array.is_uint16_array()
+                || array.is_int16_array()
+                || array.is_uint32_array()
+                || array.is_int32_array()
+                || array.is_big_uint64_array()
+                || array.is_big_int64_array();
+
+            let view = match v8::Local::<v8::ArrayBufferView>::try_from(array) {
+                Ok(view) if is_integer_array => view,
+                _ => {
+                    let message =
+                        v8::String::new(scope, "getRandomValues requires an integer typed array")
+                            .unwrap();
+                    let exception = v8::Exception::type_error(scope, message);
+                    scope.throw_exception(exception);
+                    return;
+                }
+            };
+
+            let len = view.byte_length();
+
+            if len > 0 {
                 let mut bytes = vec![0u8; len];
 
                 // Fill with random bytes using ring
@@ -22,9 +43,9 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
 
                 if rand::SecureRandom::fill(&rng, &mut bytes).is_ok() {
                     // Copy back to the typed array
-                    if let Some(buffer) = uint8_array.buffer(scope) {
+                    if let Some(buffer) = view.buffer(scope) {
                         let backing_store = buffer.get_backing_store();
-                        let offset = uint8_array.byte_offset();
+                        let offset = view.byte_offset();
 
                         unsafe {
                             std::ptr::copy_nonoverlapping(
@@ -35,9 +56,9 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                         }
                     }
                 }
-
-                retval.set(array);
             }
+
+            retval.set(array);
         },
     )
     .unwrap();
-- 
2.43.0


From 547b168ce1ac1a7f20bbe4c5a659baee53937c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 18/73] fix: importKey keeps its own copy of the key data

---
 src/runtime/crypto/ecdsa.rs  | 4 ++--
 src/runtime/crypto/hmac.rs   | 4 ++--
 src/runtime/crypto/pbkdf2.rs | 4 ++--
 src/runtime/crypto/rsa.rs    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index b85a682..560d694 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -247,9 +247,9 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                     if (algoName === 'ECDSA') {
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else {
                             reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                             return;
diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index 09aab2b..a2d2bc2 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -165,9 +165,9 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
 
                     let keyBytes;
                     if (keyData instanceof ArrayBuffer) {
-                        keyBytes = new Uint8Array(keyData);
+                        keyBytes = new Uint8Array(keyData.slice(0));
                     } else if (keyData instanceof Uint8Array) {
-                        keyBytes = keyData;
+                        keyBytes = new Uint8Array(keyData);
                     } else {
                         reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                         return;
diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 51252c3..63b54ea 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -101,9 +101,9 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
 
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else if (typeof keyData === 'string') {
                             keyBytes = new TextEncoder().encode(keyData);
                         } else {
diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index bceb9b2..19a0c6b 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -169,9 +169,9 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                     if (algoName === 'RSASSA-PKCS1-v1_5') {
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else {
                             reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                             return;
-- 
2.43.0


From 461d7c42fc5726d2e3ffd6717b301615e8757c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 19/73] fix: HMAC accepts only keys imported for HMAC

---
 src/runtime/crypto/hmac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index a2d2bc2..d658b96 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -199,7 +199,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
@@ -238,7 +238,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
-- 
2.43.0


From af0891968b91b3852f2d8eb891f10da25331188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 20/73] fix: ECDSA rejects hashes it would not use

---
 src/runtime/crypto/ecdsa.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index 560d694..60194bb 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -290,6 +290,12 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
             });
         };
 
+        // Signatures are made over SHA-256, which is also the default
+        const __isEcdsaSha256 = (algorithm) => {
+            const hash = algorithm.hash === undefined ? 'SHA-256' : algorithm.hash.name || algorithm.hash;
+            return String(hash).toUpperCase() === 'SHA-256';
+        };
+
         // Store original sign for HMAC
         const __originalSign = crypto.subtle.sign;
 
@@ -305,6 +311,11 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        if (!__isEcdsaSha256(algorithm)) {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         let dataBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
@@ -348,6 +359,11 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        if (!__isEcdsaSha256(algorithm)) {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         let dataBytes, sigBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
-- 
2.43.0


From c1785e4ca3eaaff616262d869b1e4ca78b113322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 21/73] fix: deriveBits rejects lengths it cannot derive

---
 src/runtime/crypto/pbkdf2.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 63b54ea..9fa93d4 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -71,7 +71,14 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
             let iterations = std::num::NonZeroU32::new(iterations)
                 .unwrap_or(std::num::NonZeroU32::new(1).unwrap());
 
-            let mut out = vec![0u8; length_bytes];
+            let mut out = Vec::new();
+
+            if out.try_reserve_exact(length_bytes).is_err() {
+                retval.set(v8::undefined(scope).into());
+                return;
+            }
+
+            out.resize(length_bytes, 0);
             pbkdf2::derive(algorithm, iterations, &salt, &password, &mut out);
 
             let array_buffer = crate::v8_helpers::create_array_buffer_from_vec(scope, out);
@@ -158,6 +165,11 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
                         return;
                     }
 
+                    if (!Number.isSafeInteger(length) || length < 0 || length % 8 !== 0) {
+                        reject(new Error('Length must be a multiple of 8'));
+                        return;
+                    }
+
                     const hashName = typeof algorithm.hash === 'string'
                         ? algorithm.hash
                         : algorithm.hash.name;
-- 
2.43.0


From fbc153f06726addc51206167432f3f51939fa776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 22/73] fix: RSA keys import from PKCS#8 and SPKI

---
 src/runtime/crypto/rsa.rs | 48 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index 19a0c6b..4096680 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -1,6 +1,43 @@
 use ring::{rand, rsa, signature};
 use v8;
 
+/// Split a DER element with this tag off the input: (contents, rest).
+fn der_element(input: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
+    let (&first, input) = input.split_first()?;
+    let (&len, mut input) = input.split_first()?;
+
+    if first != tag {
+        return None;
+    }
+
+    let mut length = len as usize;
+
+    if len > 0x80 {
+        let (bytes, rest) = input.split_at_checked(len as usize - 0x80)?;
+        length = bytes
+            .iter()
+            .try_fold(0usize, |n, &b| n.checked_mul(256)?.checked_add(b as usize))?;
+        input = rest;
+    }
+
+    input.split_at_checked(length)
+}
+
+/// The RSAPublicKey inside a SubjectPublicKeyInfo for rsaEncryption.
+fn rsa_public_key_in_spki(spki: &[u8]) -> Option<&[u8]> {
+    const RSA_ENCRYPTION: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01];
+
+    let (info, _) = der_element(spki, 0x30)?;
+    let (algorithm, info) = der_element(info, 0x30)?;
+    let (oid, _) = der_element(algorithm, 0x06)?;
+    let (bits, _) = der_element(info, 0x03)?;
+
+    match bits.split_first()? {
+        (0, key) if oid == RSA_ENCRYPTION => Some(key),
+        _ => None,
+    }
+}
+
 pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Object>) {
     // Native RSA sign: __nativeRsaSign(hashAlgo, privateKeyDer, data) -> ArrayBuffer
     let sign_fn = v8::Function::new(
@@ -52,8 +89,10 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                 }
             };
 
-            // Load RSA key pair from DER
-            let key_pair = match rsa::KeyPair::from_der(&private_key_data) {
+            // Load RSA key pair from PKCS#8, or from a bare RSAPrivateKey
+            let key_pair = match rsa::KeyPair::from_pkcs8(&private_key_data)
+                .or_else(|_| rsa::KeyPair::from_der(&private_key_data))
+            {
                 Ok(kp) => kp,
                 Err(_) => {
                     retval.set(v8::undefined(scope).into());
@@ -142,7 +181,10 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                     }
                 };
 
-            let public_key = signature::UnparsedPublicKey::new(algorithm, &public_key_data);
+            // The key is in SPKI, or a bare RSAPublicKey
+            let public_key_der =
+                rsa_public_key_in_spki(&public_key_data).unwrap_or(&public_key_data);
+            let public_key = signature::UnparsedPublicKey::new(algorithm, public_key_der);
             let is_valid = public_key.verify(&data, &sig_data).is_ok();
 
             retval.set(v8::Boolean::new(scope, is_valid).into());
-- 
2.43.0


From 7f12a34fe33e94d392aabb8a6d8408bb31712461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 23/73] fix: give an interval of 0 a period of 1 ms

---
 src/runtime/scheduler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index b682cbe..34c4c29 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -160,7 +160,9 @@ pub async fn run_event_loop(
 
                     SchedulerMessage::ScheduleInterval(id, interval_ms) => {
                         cancelled.remove(&id);
-                        timers.push(create_timer(id, interval_ms, true));
+                        // An interval of 0 would always be due: the loop would do nothing
+                        // but fill the (unbounded) callback channel.
+                        timers.push(create_timer(id, interval_ms.max(1), true));
                     }
 
                     SchedulerMessage::ClearTimer(id) => {
-- 
2.43.0


From 1c879510115a99f37092606c39172da4f8a2b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 24/73] fix: read a response without a body as empty

---
 src/runtime/bindings/web_api.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index e8d5ac2..1bb8073 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1131,6 +1131,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return '';
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
@@ -1162,6 +1166,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return new ArrayBuffer(0);
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
-- 
2.43.0


From a3cec64df480c1940e95ffae96cce310b7147fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 25/73] fix: close the streams of an event loop that ends

---
 src/runtime/scheduler.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 34c4c29..17a14ab 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -125,6 +125,16 @@ fn create_timer(id: CallbackId, delay_ms: u64, is_interval: bool) -> Timer {
     }
 }
 
+/// Closes the streams of an event loop that ends, however it ends: tasks that wait to
+/// write to a stream nobody will read any more would wait (and keep their source) forever.
+struct CloseStreamsOnDrop(Arc<StreamManager>);
+
+impl Drop for CloseStreamsOnDrop {
+    fn drop(&mut self) {
+        self.0.clear();
+    }
+}
+
 pub async fn run_event_loop(
     mut scheduler_rx: mpsc::UnboundedReceiver<SchedulerMessage>,
     callback_tx: mpsc::UnboundedSender<CallbackMessage>,
@@ -134,6 +144,7 @@ pub async fn run_event_loop(
     cancel: CancellationToken,
 ) {
     let callback_tx = CallbackSender::new(callback_tx, callback_notify);
+    let _close_streams = CloseStreamsOnDrop(stream_manager.clone());
 
     let mut timers: FuturesUnordered<Timer> = FuturesUnordered::new();
     let mut cancelled: HashSet<CallbackId> = HashSet::new();
-- 
2.43.0


From 86ef45662030f03584744a0f6aacaa3c25ae650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 26/73] fix: a response body that fails does not look complete

---
 src/execution_helpers.rs        |  2 ++
 src/runtime/bindings/streams.rs | 21 +++++++++++++++------
 src/runtime/scheduler.rs        |  3 ++-
 src/worker.rs                   |  8 +++++++-
 4 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 5f522b7..de532d2 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -440,6 +440,8 @@ pub fn read_response_object(
                                     break;
                                 }
                                 None => {
+                                    // The source went away without ending the body
+                                    let _ = tx.send(Err("Response body ended early".into())).await;
                                     break;
                                 }
                             }
diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 9281eb8..71a3b89 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -134,13 +134,22 @@ fn response_stream_write(
         .is_ok()
 }
 
-/// End a response stream
+/// End a response stream, with an error message if its source failed.
+/// Returns false if the buffer is full or the stream is closed.
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
-fn response_stream_end(scope: &mut v8::PinScope, state: &Rc<ResponseStreamState>, stream_id: u64) {
-    let _ = scope;
-    let _ = state
-        .manager
-        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done);
+fn response_stream_end(
+    scope: &mut v8::PinScope,
+    state: &Rc<ResponseStreamState>,
+    stream_id: u64,
+    error: v8::Local<v8::Value>,
+) -> bool {
+    let end = if error.is_null_or_undefined() {
+        stream_manager::StreamChunk::Done
+    } else {
+        stream_manager::StreamChunk::Error(error.to_rust_string_lossy(scope))
+    };
+
+    state.manager.try_write_chunk(stream_id, end).is_ok()
 }
 
 /// Check if a response stream is closed
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 17a14ab..605c907 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -480,7 +480,8 @@ fn spawn_stream_reader(
         loop {
             let chunk = tokio::select! {
                 biased;
-                _ = cancel.cancelled() => break,
+                // No Done: the body is not complete
+                _ = cancel.cancelled() => return,
                 r = rx.recv() => r,
             };
 
diff --git a/src/worker.rs b/src/worker.rs
index 82cef42..5700994 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1393,6 +1393,7 @@ pub(crate) fn setup_event_listener(
             (async () => {
                 let reader = null;
                 let cancelled = false;
+                let failure = null;
 
                 try {
                     reader = response.body.getReader();
@@ -1423,6 +1424,7 @@ pub(crate) fn setup_event_listener(
                     }
                 } catch (error) {
                     console.error('[streamResponseBody] Error:', error);
+                    failure = String(error?.message || error);
                 } finally {
                     // Cancel the reader to trigger the source's cancel() callback
                     if (reader && cancelled) {
@@ -1433,7 +1435,11 @@ pub(crate) fn setup_event_listener(
                         }
                     }
 
-                    __responseStreamEnd(streamId);
+                    // The end must not be lost to a full buffer, nor a failure look like the end
+                    while (!__responseStreamEnd(streamId, failure) && !__responseStreamIsClosed(streamId)) {
+                        await new Promise(resolve => setTimeout(resolve, 1));
+                    }
+
                     // Decrement counter when stream is fully consumed
                     globalThis.__activeResponseStreams--;
                 }
-- 
2.43.0


From b1719e893ae4ee980fabbbad4be1d73d556687ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 27/73] fix: wait for the native streams a response forwards

---
 src/execution_context.rs |  6 +++-
 src/execution_helpers.rs | 63 +++++++++++++++++++++++++++++++++++++++-
 src/request_context.rs   |  5 ++++
 src/worker.rs            | 13 +++++++--
 src/worker_future.rs     |  2 ++
 5 files changed, 84 insertions(+), 5 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0140b38..6c2cc77 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -808,7 +808,8 @@ impl ExecutionContext {
             let global = context.global(scope);
 
             // Basic exit condition check
-            let base_exit = check_exit_condition(scope, global, exit_condition);
+            let base_exit = check_exit_condition(scope, global, exit_condition)
+                && !self.request.signal.holds(exit_condition);
 
             // If abort detection is enabled, handle client disconnects
             if let Some(config) = abort_config {
@@ -1013,6 +1014,8 @@ impl ExecutionContext {
         let async_waiter = self.async_waiter.clone(); // Clone Rc (cheap) to avoid borrow on self
 
         std::future::poll_fn(|cx| {
+            self.request.signal.register(cx.waker());
+
             // -- Fair queue gate (if multiplexing enabled) --
             // When multiple requests share an isolate, only one can hold the
             // V8 Locker at a time. Others wait in FIFO order.
@@ -1197,6 +1200,7 @@ impl ExecutionContext {
                         scope,
                         &self.request.stream_manager,
                         self.limits.stream_buffer_size,
+                        &self.request.signal,
                     )
                 };
 
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index de532d2..3e3847f 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -6,7 +6,9 @@
 use crate::runtime::stream_manager::{StreamChunk, StreamManager};
 use openworkers_core::{HttpResponse, RequestBody, ResponseBody};
 use std::collections::HashMap;
-use std::sync::Arc;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::{Arc, Mutex};
+use std::task::Waker;
 use v8;
 
 /// Condition to check for exiting the event loop
@@ -48,6 +50,54 @@ impl Default for AbortConfig {
     }
 }
 
+/// What an exec() waits for outside V8.
+#[derive(Default)]
+pub struct ExecSignal {
+    /// Native streams being forwarded to the client
+    forwarding: AtomicUsize,
+    /// Wakes the event loop of the exec() in progress
+    waker: Mutex<Option<Waker>>,
+}
+
+impl ExecSignal {
+    /// Note the event loop to wake.
+    pub fn register(&self, waker: &Waker) {
+        *self.waker.lock().unwrap() = Some(waker.clone());
+    }
+
+    /// Wake the event loop, to look at its exit condition again.
+    pub fn wake(&self) {
+        if let Some(waker) = self.waker.lock().unwrap().take() {
+            waker.wake();
+        }
+    }
+
+    /// True while a forwarded response body keeps exec() from completing.
+    pub fn holds(&self, condition: EventLoopExit) -> bool {
+        matches!(
+            condition,
+            EventLoopExit::StreamsComplete | EventLoopExit::FullyComplete
+        ) && self.forwarding.load(Ordering::SeqCst) > 0
+    }
+}
+
+/// A native stream being forwarded to the client.
+struct Forwarding(Arc<ExecSignal>);
+
+impl Forwarding {
+    fn new(signal: &Arc<ExecSignal>) -> Self {
+        signal.forwarding.fetch_add(1, Ordering::SeqCst);
+        Self(signal.clone())
+    }
+}
+
+impl Drop for Forwarding {
+    fn drop(&mut self) {
+        self.0.forwarding.fetch_sub(1, Ordering::SeqCst);
+        self.0.wake();
+    }
+}
+
 /// Check if the specified exit condition is met (free function to avoid borrow conflicts)
 pub fn check_exit_condition(
     scope: &mut v8::ContextScope<v8::HandleScope>,
@@ -369,6 +419,7 @@ pub fn trigger_fetch_handler(
 /// * `scope` - V8 context scope
 /// * `stream_manager` - StreamManager for handling streaming responses
 /// * `buffer_size` - Buffer size for response stream channel
+/// * `signal` - Told while a native stream is forwarded to the client
 ///
 /// # Returns
 /// A tuple of (status, HttpResponse) or an error
@@ -376,6 +427,7 @@ pub fn read_response_object(
     scope: &mut v8::ContextScope<v8::HandleScope>,
     stream_manager: &Arc<StreamManager>,
     buffer_size: usize,
+    signal: &Arc<ExecSignal>,
 ) -> Result<(u16, HttpResponse), String> {
     let global = scope.get_current_context().global(scope);
 
@@ -416,10 +468,19 @@ pub fn read_response_object(
             // Clone stream_manager to use in the spawned task
             let stream_manager = stream_manager.clone();
 
+            // A forwarded native stream is fed by this request's I/O tasks: the request
+            // is not over before it has come whole
+            let forwarded_key = v8::String::new(scope, "_responseForwarded").unwrap();
+            let forwarding = resp_obj
+                .get(scope, forwarded_key.into())
+                .is_some_and(|v| v.is_true())
+                .then(|| Forwarding::new(signal));
+
             // Spawn task to convert StreamChunk -> Result<Bytes, String>
             // IMPORTANT: Use tokio::spawn (not spawn_local) so this task survives
             // when the LocalSet is dropped (production pattern with thread-pinned pool)
             tokio::spawn(async move {
+                let _forwarding = forwarding;
                 let mut receiver = receiver;
 
                 loop {
diff --git a/src/request_context.rs b/src/request_context.rs
index c32e598..a965a94 100644
--- a/src/request_context.rs
+++ b/src/request_context.rs
@@ -16,6 +16,7 @@ use tokio::sync::{Notify, mpsc};
 use tokio_util::sync::{CancellationToken, DropGuard};
 use tokio_util::task::AbortOnDropHandle;
 
+use crate::execution_helpers::ExecSignal;
 use crate::runtime::stream_manager::StreamManager;
 use crate::runtime::{CallbackId, CallbackMessage, SchedulerMessage};
 use openworkers_core::WebSocketId;
@@ -58,6 +59,9 @@ pub struct RequestContext {
     /// Stream manager for body streaming
     pub stream_manager: Arc<StreamManager>,
 
+    /// Response bodies being forwarded, and the waker of the exec() in progress
+    pub signal: Arc<ExecSignal>,
+
     /// Event loop task handle — automatically aborted on drop
     pub event_loop_handle: AbortOnDropHandle<()>,
 
@@ -99,6 +103,7 @@ impl RequestContext {
             next_callback_id,
             fetch_response_tx,
             stream_manager,
+            signal: Arc::default(),
             event_loop_handle: AbortOnDropHandle::new(event_loop_handle),
             aborted: Arc::new(AtomicBool::new(false)),
             _cancel_guard: cancel.drop_guard(),
diff --git a/src/worker.rs b/src/worker.rs
index 5700994..e81de3a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -2,7 +2,7 @@
 
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    ExecSignal, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::runtime::{Runtime, run_event_loop};
 use crate::security::{CpuEnforcer, TimeoutGuard};
@@ -28,6 +28,7 @@ pub struct Worker {
     _event_loop_handle: AbortOnDropHandle<()>,
     aborted: Arc<AtomicBool>,
     _cancel_guard: DropGuard,
+    signal: Arc<ExecSignal>,
 }
 
 /// Builder for creating Workers with flexible configuration.
@@ -592,6 +593,7 @@ impl Worker {
             _event_loop_handle: AbortOnDropHandle::new(event_loop_handle),
             aborted: Arc::new(AtomicBool::new(false)),
             _cancel_guard: cancel.drop_guard(),
+            signal: Arc::default(),
         })
     }
 
@@ -750,6 +752,8 @@ impl Worker {
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
 
         std::future::poll_fn(|cx| {
+            self.signal.register(cx.waker());
+
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
@@ -776,7 +780,8 @@ impl Worker {
                     let global = context.global(scope);
 
                     // Basic exit condition check
-                    let base_exit = check_exit_condition(scope, global, exit_condition);
+                    let base_exit = check_exit_condition(scope, global, exit_condition)
+                        && !self.signal.holds(exit_condition);
 
                     // If abort detection is enabled, handle client disconnects
                     if let Some(ref config) = abort_config {
@@ -882,6 +887,7 @@ impl Worker {
                 scope,
                 &self.runtime.stream_manager,
                 self.runtime.limits.stream_buffer_size,
+                &self.signal,
             )?
         };
 
@@ -1339,9 +1345,10 @@ pub(crate) fn setup_event_listener(
             }
 
             // If it's a native stream (fetch forward), just mark it
-            // Native streams are managed by Rust, no need to track here
+            // Native streams are managed (and waited for) by Rust, no need to track here
             if (response.body._nativeStreamId !== undefined) {
                 response._responseStreamId = response.body._nativeStreamId;
+                response._responseForwarded = true;
                 globalThis.__lastResponseStreamId = response.body._nativeStreamId;
                 return response;
             }
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 4c2dbcd..5eb849d 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -61,6 +61,8 @@ impl Future for WorkerFuture<'_> {
 
         let this = self.get_mut();
 
+        this.ctx.request.signal.register(cx.waker());
+
         // 1. Check termination (CPU/wall-clock guards)
         if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
             return Poll::Ready(Err("Execution terminated".to_string()));
-- 
2.43.0


From 0e0e1f5cd66ef74a4fa2b3243478870a09ac882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 28/73] fix: notice a disconnect when the event loop is idle

---
 src/execution_context.rs |  5 ++++-
 src/execution_helpers.rs | 25 +++++++++++++++++++++++++
 src/worker.rs            |  4 +++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 6c2cc77..ed81f14 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -19,7 +19,7 @@ use crate::LockerManagedIsolate;
 use crate::async_waiter::AsyncWaiter;
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    poll_grace, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
@@ -1009,6 +1009,7 @@ impl ExecutionContext {
         use std::task::Poll;
 
         let mut abort_signaled_at: Option<tokio::time::Instant> = None;
+        let mut grace_timer = None;
         let mut pending_callbacks: Vec<crate::runtime::CallbackMessage> = Vec::with_capacity(16);
         let lmi_ptr = self.lmi_ptr; // Copy raw pointer (no persistent borrow on self)
         let async_waiter = self.async_waiter.clone(); // Clone Rc (cheap) to avoid borrow on self
@@ -1083,6 +1084,8 @@ impl ExecutionContext {
                 // during processing (e.g., promise chains, microtasks)
             }
 
+            poll_grace(cx, &abort_config, abort_signaled_at, &mut grace_timer);
+
             // 6. Not done yet — release fair queue and V8 lock.
             //    V8 mutex released, other requests can run on this isolate.
             if let Some(ref waiter) = async_waiter {
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 3e3847f..3f6cc4a 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -6,6 +6,7 @@
 use crate::runtime::stream_manager::{StreamChunk, StreamManager};
 use openworkers_core::{HttpResponse, RequestBody, ResponseBody};
 use std::collections::HashMap;
+use std::future::Future;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
 use std::task::Waker;
@@ -44,6 +45,26 @@ impl AbortConfig {
     }
 }
 
+/// The grace period of a disconnect that was signaled: polls a timer for its end, so that
+/// an event loop with nothing else to do looks at its exit condition again.
+pub fn poll_grace(
+    cx: &mut std::task::Context<'_>,
+    config: &Option<AbortConfig>,
+    signaled_at: Option<tokio::time::Instant>,
+    timer: &mut Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
+) {
+    if let (Some(config), Some(at)) = (config, signaled_at) {
+        let timer = timer.get_or_insert_with(|| {
+            let end = at + config.grace_period + tokio::time::Duration::from_millis(1);
+            Box::pin(tokio::time::sleep_until(end))
+        });
+
+        if !timer.is_elapsed() {
+            let _ = timer.as_mut().poll(cx);
+        }
+    }
+}
+
 impl Default for AbortConfig {
     fn default() -> Self {
         Self::new(100) // 100ms grace period
@@ -467,6 +488,7 @@ pub fn read_response_object(
 
             // Clone stream_manager to use in the spawned task
             let stream_manager = stream_manager.clone();
+            let task_signal = signal.clone();
 
             // A forwarded native stream is fed by this request's I/O tasks: the request
             // is not over before it has come whole
@@ -514,6 +536,9 @@ pub fn read_response_object(
                         }
                     }
                 }
+
+                // The client may have gone: an idle event loop has to notice
+                task_signal.wake();
             });
 
             ResponseBody::Stream(rx)
diff --git a/src/worker.rs b/src/worker.rs
index e81de3a..71950a8 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -2,7 +2,7 @@
 
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    ExecSignal, read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    ExecSignal, poll_grace, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::runtime::{Runtime, run_event_loop};
 use crate::security::{CpuEnforcer, TimeoutGuard};
@@ -749,6 +749,7 @@ impl Worker {
         use std::task::Poll;
 
         let mut abort_signaled_at: Option<tokio::time::Instant> = None;
+        let mut grace_timer = None;
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
 
         std::future::poll_fn(|cx| {
@@ -820,6 +821,7 @@ impl Worker {
             }
 
             // 6. Not done yet - waker registered via poll_recv
+            poll_grace(cx, &abort_config, abort_signaled_at, &mut grace_timer);
             Poll::Pending
         })
         .await
-- 
2.43.0


From 4618686b6c18060a6cbc507adb3aa5b3c5c80a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 29/73] fix: send the ArrayBuffer chunks of a response

---
 src/worker.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 71950a8..a910b97 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1394,6 +1394,10 @@ pub(crate) fn setup_event_listener(
                     return new Uint8Array(value.buffer, value.byteOffset, value.byteLength);
                 }
 
+                if (value instanceof ArrayBuffer) {
+                    return new Uint8Array(value);
+                }
+
                 // Fallback: convert to string then encode
                 return encoder.encode(String(value));
             }
@@ -1412,9 +1416,9 @@ pub(crate) fn setup_event_listener(
 
                         if (done) break;
 
-                        if (value && value.length > 0) {
-                            const chunk = toUint8Array(value);
+                        const chunk = value == null ? null : toUint8Array(value);
 
+                        if (chunk && chunk.length > 0) {
                             // Try to write, with backpressure handling
                             while (!__responseStreamWrite(streamId, chunk)) {
                                 // Check if stream was closed (client disconnected)
-- 
2.43.0


From f6e51cab4caedfb9c253dced3df7b9cb03ce88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 30/73] fix: wait for every waitUntil promise, and report
 scheduled handlers that fail

---
 src/worker.rs | 92 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 70 insertions(+), 22 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index a910b97..576c6c1 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1461,6 +1461,22 @@ pub(crate) fn setup_event_listener(
             return response;
         }
 
+        // Wait for every promise passed to waitUntil(), also those passed while waiting.
+        // A rejection does not cut the others short: returns the first one at the end.
+        async function __awaitWaitUntil(promises) {
+            let failure = null;
+
+            for (let i = 0; i < promises.length; i++) {
+                try {
+                    await promises[i];
+                } catch (error) {
+                    failure ??= { error };
+                }
+            }
+
+            return failure;
+        }
+
         globalThis.addEventListener = function(type, handler) {
             if (type === 'fetch') {
                 globalThis.__fetchHandler = handler;
@@ -1536,19 +1552,21 @@ pub(crate) fn setup_event_listener(
                             if (responsePromise) {
                                 await responsePromise;
                             }
-
-                            // Then wait for all waitUntil promises to complete
-                            if (waitUntilPromises.length > 0) {
-                                await Promise.all(waitUntilPromises);
-                            }
                         } catch (error) {
                             console.error('[addEventListener] Error in fetch handler:', error);
                             // Only set a 500 response if no response was already produced.
-                            // A rejected waitUntil promise must NOT overwrite a valid response.
                             if (!globalThis.__lastResponse) {
                                 globalThis.__lastResponse = new Response('Handler exception: ' + (error.message || error), { status: 500 });
                             }
                         } finally {
+                            // Then wait for all waitUntil promises to complete.
+                            // A rejected one must NOT overwrite a valid response.
+                            const failure = await __awaitWaitUntil(waitUntilPromises);
+
+                            if (failure) {
+                                console.error('[waitUntil] Promise rejected:', failure.error);
+                            }
+
                             globalThis.__requestComplete = true;
                         }
                     })();
@@ -1566,9 +1584,18 @@ pub(crate) fn setup_event_listener(
                         await handler(event);
 
                         // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
+                        const failure = await __awaitWaitUntil(waitUntilPromises);
+
+                        if (failure) {
+                            throw failure.error;
                         }
+                    } catch (error) {
+                        console.error('[scheduled] Handler error:', error);
+                        globalThis.__taskResult = {
+                            success: false,
+                            error: error?.message || String(error)
+                        };
+                        await __awaitWaitUntil(waitUntilPromises);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1614,15 +1641,18 @@ pub(crate) fn setup_event_listener(
                         }
 
                         // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
+                        const failure = await __awaitWaitUntil(waitUntilPromises);
+
+                        if (failure) {
+                            throw failure.error;
                         }
                     } catch (error) {
                         console.error('[task] Handler error:', error);
                         globalThis.__taskResult = {
                             success: false,
-                            error: error.message || String(error)
+                            error: error?.message || String(error)
                         };
+                        await __awaitWaitUntil(waitUntilPromises);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1671,11 +1701,6 @@ pub(crate) fn setup_es_modules_handler(
                         // Process response body for streaming
                         const processed = await __streamResponseBody(response);
                         globalThis.__lastResponse = processed;
-
-                        // Wait for all waitUntil promises to complete (after response is set)
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
                     } catch (error) {
                         console.error('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
@@ -1685,6 +1710,13 @@ pub(crate) fn setup_es_modules_handler(
                             );
                         }
                     } finally {
+                        // Wait for all waitUntil promises to complete (after response is set)
+                        const failure = await __awaitWaitUntil(waitUntilPromises);
+
+                        if (failure) {
+                            console.error('[waitUntil] Promise rejected:', failure.error);
+                        }
+
                         globalThis.__requestComplete = true;
                     }
                 })();
@@ -1718,9 +1750,18 @@ pub(crate) fn setup_es_modules_handler(
                     await moduleScheduled(event, globalThis.env, ctx);
 
                     // Wait for all waitUntil promises to complete
-                    if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
+                    const failure = await __awaitWaitUntil(waitUntilPromises);
+
+                    if (failure) {
+                        throw failure.error;
                     }
+                } catch (error) {
+                    console.error('[scheduled] Handler error:', error);
+                    globalThis.__taskResult = {
+                        success: false,
+                        error: error?.message || String(error)
+                    };
+                    await __awaitWaitUntil(waitUntilPromises);
                 } finally {
                     globalThis.__requestComplete = true;
                 }
@@ -1730,7 +1771,11 @@ pub(crate) fn setup_es_modules_handler(
         // If export default exists but no scheduled, and no addEventListener handler, create a handler that throws
         if (typeof globalThis.default === 'object' && globalThis.default !== null && typeof globalThis.default.scheduled !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
             globalThis.__scheduledHandler = async function(event) {
-                throw new Error('Worker does not implement scheduled handler');
+                globalThis.__taskResult = {
+                    success: false,
+                    error: 'Worker does not implement scheduled handler'
+                };
+                globalThis.__requestComplete = true;
             };
         }
 
@@ -1780,14 +1825,17 @@ pub(crate) fn setup_es_modules_handler(
                     }
 
                     // Wait for all waitUntil promises
-                    if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
+                    const failure = await __awaitWaitUntil(waitUntilPromises);
+
+                    if (failure) {
+                        throw failure.error;
                     }
                 } catch (e) {
                     globalThis.__taskResult = {
                         success: false,
-                        error: e.message || String(e)
+                        error: e?.message || String(e)
                     };
+                    await __awaitWaitUntil(waitUntilPromises);
                 } finally {
                     globalThis.__requestComplete = true;
                 }
-- 
2.43.0


From 61bbc042d3e1c49e5f6b67f43cf919562111a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 31/73] fix: end tasks without a handler, keep the result given
 to respondWith

---
 src/worker.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 576c6c1..2599a27 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1,8 +1,9 @@
 //! Per-request isolate execution. Creates a new V8 isolate for each request.
 
 use crate::execution_helpers::{
-    AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    ExecSignal, poll_grace, read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    AbortConfig, EventLoopExit, ExecSignal, check_exit_condition, get_completion_state,
+    get_response_stream_id, poll_grace, read_response_object, signal_client_disconnect,
+    trigger_fetch_handler,
 };
 use crate::runtime::{Runtime, run_event_loop};
 use crate::security::{CpuEnforcer, TimeoutGuard};
@@ -1501,7 +1502,7 @@ pub(crate) fn setup_event_listener(
                                     .catch(error => {
                                         console.error('[respondWith] Promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Promise rejected: ' + (error.message || error),
+                                            'Promise rejected: ' + (error?.message || error),
                                             { status: 500 }
                                         );
                                     });
@@ -1542,7 +1543,7 @@ pub(crate) fn setup_event_listener(
                                     .catch(error => {
                                         console.error('[addEventListener] Handler promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Handler promise rejected: ' + (error.message || error),
+                                            'Handler promise rejected: ' + (error?.message || error),
                                             { status: 500 }
                                         );
                                     });
@@ -1556,7 +1557,7 @@ pub(crate) fn setup_event_listener(
                             console.error('[addEventListener] Error in fetch handler:', error);
                             // Only set a 500 response if no response was already produced.
                             if (!globalThis.__lastResponse) {
-                                globalThis.__lastResponse = new Response('Handler exception: ' + (error.message || error), { status: 500 });
+                                globalThis.__lastResponse = new Response('Handler exception: ' + (error?.message || error), { status: 500 });
                             }
                         } finally {
                             // Then wait for all waitUntil promises to complete.
@@ -1612,7 +1613,11 @@ pub(crate) fn setup_event_listener(
                         waitUntilPromises.push(Promise.resolve(promise));
                     };
 
+                    let responded = false;
+
                     event.respondWith = function(result) {
+                        responded = true;
+
                         if (result && typeof result === 'object') {
                             globalThis.__taskResult = {
                                 success: result.success !== false,
@@ -1628,7 +1633,7 @@ pub(crate) fn setup_event_listener(
                         const result = await handler(event);
 
                         // If handler returns a value and respondWith wasn't called, use it
-                        if (result !== undefined && globalThis.__taskResult.data === undefined) {
+                        if (result !== undefined && !responded) {
                             if (result && typeof result === 'object' && 'success' in result) {
                                 globalThis.__taskResult = {
                                     success: result.success !== false,
@@ -1705,7 +1710,7 @@ pub(crate) fn setup_es_modules_handler(
                         console.error('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
                             globalThis.__lastResponse = new Response(
-                                'Handler exception: ' + (error.message || error),
+                                'Handler exception: ' + (error?.message || error),
                                 { status: 500 }
                             );
                         }
@@ -1792,7 +1797,11 @@ pub(crate) fn setup_es_modules_handler(
                     waitUntilPromises.push(Promise.resolve(promise));
                 };
 
+                let responded = false;
+
                 event.respondWith = function(result) {
+                    responded = true;
+
                     if (result && typeof result === 'object') {
                         globalThis.__taskResult = {
                             success: result.success !== false,
@@ -1812,7 +1821,7 @@ pub(crate) fn setup_es_modules_handler(
                     const result = await moduleTask(event, globalThis.env, ctx);
 
                     // If handler returns a value and respondWith wasn't called, use it
-                    if (result !== undefined && globalThis.__taskResult.data === undefined) {
+                    if (result !== undefined && !responded) {
                         if (result && typeof result === 'object' && 'success' in result) {
                             globalThis.__taskResult = {
                                 success: result.success !== false,
@@ -1862,6 +1871,17 @@ pub(crate) fn setup_es_modules_handler(
                 globalThis.__requestComplete = true;
             };
         }
+
+        // Same for task events: without any handler the task fails, rather than never end
+        if (typeof globalThis.__taskHandler !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
+            globalThis.__taskHandler = async function(event) {
+                globalThis.__taskResult = {
+                    success: false,
+                    error: 'Worker does not implement task handler'
+                };
+                globalThis.__requestComplete = true;
+            };
+        }
     "#;
 
     evaluate_in_context(isolate, context, code)
-- 
2.43.0


From 2b12729b186b30b4cb49bc2c175dcfc797e3536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 32/73] fix: wake the event loop when the wall-clock limit is
 over

---
 src/execution_context.rs      | 16 ++++++++++++----
 src/security/timeout_guard.rs | 11 +++++++++++
 src/worker.rs                 |  7 ++++++-
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index ed81f14..fea597a 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -851,8 +851,12 @@ impl ExecutionContext {
 
         // Setup security guards:
         // 1. Wall-clock timeout (all platforms) - prevents hanging on I/O
-        let wall_guard =
-            TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
+        let signal = self.request.signal.clone();
+        let wall_guard = TimeoutGuard::with_waker(
+            isolate_handle.clone(),
+            self.limits.max_wall_clock_time_ms,
+            move || signal.wake(),
+        );
 
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
@@ -904,8 +908,12 @@ impl ExecutionContext {
         let isolate_handle = unsafe { (*self.isolate).thread_safe_handle() };
 
         // Fresh guards for background work — same limits as exec()
-        let wall_guard =
-            TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
+        let signal = self.request.signal.clone();
+        let wall_guard = TimeoutGuard::with_waker(
+            isolate_handle.clone(),
+            self.limits.max_wall_clock_time_ms,
+            move || signal.wake(),
+        );
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
         let result = self
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 84dc07b..ed94bd0 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -70,6 +70,16 @@ impl TimeoutGuard {
     /// A guard that will terminate execution if the timeout is exceeded.
     /// Drop the guard to cancel the watchdog.
     pub fn new(isolate_handle: v8::IsolateHandle, timeout_ms: u64) -> Self {
+        Self::with_waker(isolate_handle, timeout_ms, || {})
+    }
+
+    /// Same, calling `wake` after a timeout: terminating V8 does not wake an event loop
+    /// that waits for I/O.
+    pub fn with_waker(
+        isolate_handle: v8::IsolateHandle,
+        timeout_ms: u64,
+        wake: impl FnOnce() + Send + 'static,
+    ) -> Self {
         let triggered = Arc::new(AtomicBool::new(false));
 
         // If timeout is 0, create disabled guard (no watchdog thread)
@@ -103,6 +113,7 @@ impl TimeoutGuard {
                         );
                         triggered_clone.store(true, Ordering::SeqCst);
                         isolate_handle.terminate_execution();
+                        wake();
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
                     Err(mpsc::RecvTimeoutError::Disconnected) => {
diff --git a/src/worker.rs b/src/worker.rs
index 2599a27..a947d5f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -629,7 +629,12 @@ impl Worker {
 
         // Setup security guards:
         // 1. Wall-clock timeout (all platforms) - prevents hanging on I/O
-        let wall_guard = TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
+        let signal = self.signal.clone();
+        let wall_guard = TimeoutGuard::with_waker(
+            isolate_handle.clone(),
+            limits.max_wall_clock_time_ms,
+            move || signal.wake(),
+        );
 
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
-- 
2.43.0


From 3d8204054b0b3c6d8bc565868b7e9256f278009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 33/73] fix: release a pool slot when the caller drops the
 request

---
 src/pool.rs | 70 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 10ce28c..6989c6a 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -586,6 +586,48 @@ fn drop_under_lock<T>(value: T, lmi_ptr: *mut LockerManagedIsolate) {
     }
 }
 
+/// A slot on an isolate, released on drop: whichever way the request ends,
+/// also when the caller drops the future of `execute_pinned`.
+struct Slot(Arc<TaggedIsolate>);
+
+impl Drop for Slot {
+    fn drop(&mut self) {
+        release_to_local_pool(&self.0);
+    }
+}
+
+/// The context of a running request, dropped under the V8 lock unless it is
+/// taken out again.
+struct RunningContext {
+    ctx: Option<ExecutionContext>,
+    lmi_ptr: *mut LockerManagedIsolate,
+}
+
+impl RunningContext {
+    fn new(ctx: ExecutionContext, lmi_ptr: *mut LockerManagedIsolate) -> Self {
+        Self {
+            ctx: Some(ctx),
+            lmi_ptr,
+        }
+    }
+
+    fn get(&mut self) -> &mut ExecutionContext {
+        self.ctx.as_mut().expect("context already taken")
+    }
+
+    fn into_parts(mut self) -> (RequestContext, *mut v8::OwnedIsolate) {
+        self.ctx.take().expect("context already taken").into_parts()
+    }
+}
+
+impl Drop for RunningContext {
+    fn drop(&mut self) {
+        if let Some(ctx) = self.ctx.take() {
+            drop_under_lock(ctx, self.lmi_ptr);
+        }
+    }
+}
+
 /// Execute a worker script using the isolate pool.
 ///
 /// This uses thread-local storage for zero-contention access to isolates.
@@ -627,6 +669,8 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         CACHE_MISSES.fetch_add(1, Ordering::Relaxed);
     }
 
+    let slot = Slot(Arc::clone(&isolate_arc));
+
     // Get raw pointer to isolate via UnsafeCell (no Mutex aliasing).
     // SAFETY: Concurrency state prevents eviction. Arc keeps memory alive.
     // Single-thread access via LocalSet.
@@ -705,7 +749,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         );
 
         // Reconstruct EC from cached parts
-        let mut ec = ExecutionContext::from_cached(
+        let ec = ExecutionContext::from_cached(
             cached_isolate_ptr,
             lmi_ptr,
             platform,
@@ -714,15 +758,16 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             request,
             async_waiter.clone(),
         );
+        let mut ec = RunningContext::new(ec, lmi_ptr);
 
         if let Some(callback) = on_warm_hit {
             callback(&cached_ops);
         }
 
         // reset() acquires its own V8 lock internally
-        match ec.reset() {
+        match ec.get().reset() {
             Ok(()) => {
-                let result = ec.exec(task).await;
+                let result = ec.get().exec(task).await;
 
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
@@ -731,7 +776,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         result.as_ref().err(),
                     );
                     false
-                } else if let Err(reason) = ec.drain_waituntil().await {
+                } else if let Err(reason) = ec.get().drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
                         &worker_id[..8.min(worker_id.len())],
@@ -775,10 +820,10 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         drop_under_lock(evicted, lmi_ptr);
                     }
                 } else {
-                    drop_under_lock(ec, lmi_ptr);
+                    drop(ec);
                 }
 
-                release_to_local_pool(&isolate_arc);
+                drop(slot);
                 return result;
             }
             Err(e) => {
@@ -787,7 +832,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     e,
                 );
-                drop_under_lock(ec, lmi_ptr);
+                drop(ec);
                 // Fall through to cold path
             }
         }
@@ -821,10 +866,11 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     let (result, new_cached_context) = match ctx_result {
         Ok(mut ctx) => {
             ctx.async_waiter = async_waiter;
-            let result = ctx.exec(task).await;
+            let mut ctx = RunningContext::new(ctx, lmi_ptr);
+            let result = ctx.get().exec(task).await;
 
             if result.is_ok() {
-                match ctx.drain_waituntil().await {
+                match ctx.get().drain_waituntil().await {
                     Ok(()) => {
                         let (request, isolate_ptr) = ctx.into_parts();
                         (
@@ -847,7 +893,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                             &worker_id[..8.min(worker_id.len())],
                             reason,
                         );
-                        drop_under_lock(ctx, lmi_ptr);
+                        drop(ctx);
                         (Ok(()), None)
                     }
                 }
@@ -857,7 +903,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     result.as_ref().err(),
                 );
-                drop_under_lock(ctx, lmi_ptr);
+                drop(ctx);
                 (result, None)
             }
         }
@@ -890,7 +936,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     }
 
     // Release the isolate back to the pool
-    release_to_local_pool(&isolate_arc);
+    drop(slot);
 
     result
 }
-- 
2.43.0


From e85a81ee14d7fde877cfe094137829e4fb24c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 34/73] fix: end a request whose callbacks reached the CPU
 limit

---
 src/execution_context.rs | 9 +++++++++
 src/worker.rs            | 5 +++++
 src/worker_future.rs     | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index fea597a..565bf25 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1068,6 +1068,15 @@ impl ExecutionContext {
                     }
                 };
 
+                // Terminated while the callbacks ran: nothing else would wake us
+                if self.is_terminated(wall_guard, cpu_guard) {
+                    if let Some(ref waiter) = async_waiter {
+                        waiter.unlock();
+                    }
+
+                    return Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 // Check exit condition after each round
                 let should_exit = self.check_exit_with_abort(
                     exit_condition,
diff --git a/src/worker.rs b/src/worker.rs
index a947d5f..92e7bf4 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -776,6 +776,11 @@ impl Worker {
                     Err(e) => return Poll::Ready(Err(e)),
                 };
 
+                // Terminated while the callbacks ran: nothing else would wake us
+                if self.is_terminated(wall_guard, cpu_guard) {
+                    return Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 // Check exit condition with abort handling
                 // CRITICAL: Wrap in explicit block to drop V8 scopes BEFORE returning Pending.
                 let should_exit = {
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 5eb849d..102831a 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -78,6 +78,11 @@ impl Future for WorkerFuture<'_> {
                 Err(e) => return Poll::Ready(Err(e)),
             };
 
+            // Terminated while the callbacks ran: nothing else would wake us
+            if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+
             let should_exit = this.ctx.check_exit_with_abort(
                 this.exit_condition,
                 &this.abort_config,
-- 
2.43.0


From 379e4e6d43e30a1f04b6b62a8f0fbab9d71e0c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 35/73] fix: lose no CPU limit when many are reached at once

---
 src/security/cpu_enforcer.rs | 119 ++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 59 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 4eebb9e..67354d2 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -16,11 +16,11 @@
 //!
 //! 1. Create per-thread POSIX timer with `timer_create(CLOCK_THREAD_CPUTIME_ID)`
 //! 2. Timer fires `SIGALRM` when CPU time limit is exceeded
-//! 3. Signal handler thread (spawned once globally) receives the signal
-//! 4. Handler calls `isolate.terminate_execution()` to abort V8
+//! 3. Signal processing thread (spawned once globally) receives the signal
+//! 4. It calls `isolate.terminate_execution()` to abort V8
 //!
-//! The signal handler itself does NO locks, NO allocations - fully async-signal-safe.
-//! All complex logic happens in the dedicated signal processing thread.
+//! The signal is sent to that thread alone and taken with `sigwaitinfo`: there is no
+//! asynchronous signal handler.
 //!
 //! ## Why CPU time matters
 //!
@@ -40,7 +40,7 @@
 mod linux {
     use std::collections::HashMap;
     use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
-    use std::sync::{Arc, Mutex, Once};
+    use std::sync::{Arc, LazyLock, Mutex, mpsc};
 
     /// CPU time enforcer using POSIX timers.
     pub struct CpuEnforcer {
@@ -68,7 +68,10 @@ mod linux {
             let mut timer_id: libc::timer_t = std::ptr::null_mut();
             let mut sigev: libc::sigevent = unsafe { std::mem::zeroed() };
 
-            sigev.sigev_notify = libc::SIGEV_SIGNAL;
+            // Straight to the thread that waits for it: the kernel queues it there, so
+            // that none is lost, however many timers expire at the same time.
+            sigev.sigev_notify = libc::SIGEV_THREAD_ID;
+            sigev.sigev_notify_thread_id = *SIGNAL_THREAD;
             sigev.sigev_signo = libc::SIGALRM;
             sigev.sigev_value.sival_ptr = enforcer_id as *mut libc::c_void;
 
@@ -172,11 +175,21 @@ mod linux {
         }
     }
 
-    static ENFORCER_REGISTRY: std::sync::LazyLock<Mutex<HashMap<usize, EnforcerData>>> =
-        std::sync::LazyLock::new(|| {
-            spawn_signal_handler_thread();
-            Mutex::new(HashMap::new())
-        });
+    static ENFORCER_REGISTRY: LazyLock<Mutex<HashMap<usize, EnforcerData>>> =
+        LazyLock::new(|| Mutex::new(HashMap::new()));
+
+    /// Thread id of the signal processing thread, which has SIGALRM blocked by the time
+    /// its id is known.
+    static SIGNAL_THREAD: LazyLock<libc::pid_t> = LazyLock::new(|| {
+        let (tx, rx) = mpsc::channel();
+
+        std::thread::Builder::new()
+            .name("cpu-enforcer".into())
+            .spawn(move || signal_thread(tx))
+            .expect("Failed to spawn CPU enforcer signal thread");
+
+        rx.recv().expect("CPU enforcer signal thread did not start")
+    });
 
     fn register_enforcer(
         enforcer_id: usize,
@@ -198,61 +211,49 @@ mod linux {
         map.remove(&enforcer_id);
     }
 
-    fn spawn_signal_handler_thread() {
-        static SIGNAL_THREAD_SPAWNED: Once = Once::new();
+    fn signal_thread(ready: mpsc::Sender<libc::pid_t>) {
+        let mut signals: libc::sigset_t = unsafe { std::mem::zeroed() };
 
-        SIGNAL_THREAD_SPAWNED.call_once(|| {
-            std::thread::Builder::new()
-                .name("cpu-enforcer".into())
-                .spawn(signal_handler_thread)
-                .expect("Failed to spawn CPU enforcer signal handler thread");
-        });
-    }
+        unsafe {
+            libc::sigemptyset(&mut signals);
+            libc::sigaddset(&mut signals, libc::SIGALRM);
+            libc::pthread_sigmask(libc::SIG_BLOCK, &signals, std::ptr::null_mut());
+        }
+
+        let _ = ready.send(unsafe { libc::gettid() });
 
-    fn signal_handler_thread() {
-        use futures::StreamExt;
-        use signal_hook::consts::signal;
-        use signal_hook::iterator::exfiltrator::raw::WithRawSiginfo;
-        use signal_hook_tokio::SignalsInfo;
-
-        // Create a dedicated single-threaded tokio runtime for signal handling
-        let rt = tokio::runtime::Builder::new_current_thread()
-            .enable_all()
-            .build()
-            .expect("Failed to create tokio runtime for CPU enforcer signal handler");
-
-        rt.block_on(async {
-            // Setup async-signal-safe SIGALRM handler with raw siginfo extraction
-            let mut signals = SignalsInfo::with_exfiltrator([signal::SIGALRM], WithRawSiginfo)
-                .expect("Failed to register SIGALRM handler");
-
-            while let Some(siginfo) = signals.next().await {
-                // Extract enforcer_id from signal value (set in timer_create)
-                let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
-
-                // Lookup ONLY this specific enforcer in registry
-                let data = {
-                    let map = ENFORCER_REGISTRY.lock().unwrap();
-                    map.get(&enforcer_id).cloned()
-                };
-
-                if let Some(enforcer_data) = data {
-                    if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
-                        eprintln!(
-                            "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
-                            enforcer_id
-                        );
-                        enforcer_data.isolate_handle.terminate_execution();
-                    }
-                } else {
-                    // Timer fired but enforcer was already dropped (normal race condition)
+        loop {
+            let mut siginfo: libc::siginfo_t = unsafe { std::mem::zeroed() };
+
+            if unsafe { libc::sigwaitinfo(&signals, &mut siginfo) } != libc::SIGALRM {
+                continue;
+            }
+
+            // Extract enforcer_id from signal value (set in timer_create)
+            let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
+
+            // Lookup ONLY this specific enforcer in registry
+            let data = {
+                let map = ENFORCER_REGISTRY.lock().unwrap();
+                map.get(&enforcer_id).cloned()
+            };
+
+            if let Some(enforcer_data) = data {
+                if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
                     eprintln!(
-                        "[openworkers-runtime-v8] SIGALRM for unknown enforcer #{} (already dropped?)",
+                        "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
                         enforcer_id
                     );
+                    enforcer_data.isolate_handle.terminate_execution();
                 }
+            } else {
+                // Timer fired but enforcer was already dropped (normal race condition)
+                eprintln!(
+                    "[openworkers-runtime-v8] SIGALRM for unknown enforcer #{} (already dropped?)",
+                    enforcer_id
+                );
             }
-        });
+        }
     }
 }
 
-- 
2.43.0


From 9e6cbf35ff0fae421d63c56a68557640beb70b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 36/73] fix: report the encoding's name in TextDecoder

---
 src/runtime/text_encoding.rs | 47 +++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index bfd8d1c..202591e 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -127,6 +127,30 @@ fn text_decode(
     rv.set(v8_str.into());
 }
 
+/// Native text encoding name: label → lowercase name of the encoding
+fn text_encoding_name(
+    scope: &mut v8::PinScope,
+    args: v8::FunctionCallbackArguments,
+    mut rv: v8::ReturnValue,
+) {
+    let Some(label) = args.get(0).to_string(scope) else {
+        return;
+    };
+
+    let label = label.to_rust_string_lossy(scope);
+
+    let Some(encoding) = encoding_rs::Encoding::for_label_no_replacement(label.as_bytes()) else {
+        let msg = format!("TextDecoder: '{}' is not a supported encoding", label);
+        let msg = v8::String::new(scope, &msg).unwrap();
+        let exc = v8::Exception::range_error(scope, msg);
+        scope.throw_exception(exc);
+        return;
+    };
+
+    let name = v8::String::new(scope, &encoding.name().to_ascii_lowercase()).unwrap();
+    rv.set(name.into());
+}
+
 /// Register native __text_encode and __text_decode functions on globalThis.
 ///
 /// Must be called at runtime (not in snapshot) because native functions
@@ -141,6 +165,10 @@ pub fn setup_text_encoding_natives(scope: &mut v8::PinScope) {
     let decode_fn = v8::Function::new(scope, text_decode).unwrap();
     let key = v8::String::new(scope, "__text_decode").unwrap();
     global.set(scope, key.into(), decode_fn.into());
+
+    let name_fn = v8::Function::new(scope, text_encoding_name).unwrap();
+    let key = v8::String::new(scope, "__text_encoding_name").unwrap();
+    global.set(scope, key.into(), name_fn.into());
 }
 
 /// JS source for TextEncoder/TextDecoder class wrappers.
@@ -187,23 +215,14 @@ pub const TEXT_ENCODING_JS: &str = r#"
         #ignoreBOM;
 
         constructor(label = 'utf-8', options = {}) {
-            this.#encoding = label.toLowerCase().trim();
-            this.#fatal = !!options.fatal;
-            this.#ignoreBOM = !!options.ignoreBOM;
-
-            // Validate encoding by attempting a decode
-            // encoding_rs will reject invalid labels
-            try {
-                __text_decode(new Uint8Array(0), this.#encoding, this.#fatal);
-            } catch (e) {
-                if (e instanceof RangeError) throw e;
-                throw e;
-            }
+            // Throws a RangeError for an invalid label
+            this.#encoding = __text_encoding_name(label);
+            this.#fatal = !!options?.fatal;
+            this.#ignoreBOM = !!options?.ignoreBOM;
         }
 
         get encoding() {
-            // encoding_rs normalizes labels, but we store the canonical name
-            // The spec says to return the lowercase name
+            // The lowercase name of the encoding, whatever label was given
             return this.#encoding;
         }
 
-- 
2.43.0


From 48681f669d54897059322d4e3e61b017afeb0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 37/73] fix: callback numbers of a reused context start anew

---
 src/execution_context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 565bf25..1383892 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1462,7 +1462,8 @@ impl ExecutionContext {
     ///
     /// Cancels any lingering `terminate_execution` flag before evaluating JS.
     /// Does NOT touch the event loop (it persists across requests).
-    /// Does NOT reset `__nextTimerId` (monotonically increasing to avoid ID collisions).
+    /// Does NOT reset `__nextTimerId` and `next_callback_id` (monotonically increasing to
+    /// avoid ID collisions).
     pub fn reset(&mut self) -> Result<(), String> {
         // Acquire lock if pooled isolate (evaluate accesses V8 directly)
         let lmi_ptr = self.lmi_ptr;
@@ -1506,7 +1507,9 @@ impl ExecutionContext {
         self.request.fetch_error_callbacks.borrow_mut().clear();
         self.request.stream_callbacks.borrow_mut().clear();
         self.request.ws_event_callbacks.borrow_mut().clear();
-        *self.request.next_callback_id.borrow_mut() = 1;
+
+        // `next_callback_id` is not reset: calls of the previous request may still be in
+        // flight, and their answers must not be taken for answers to this request's calls.
 
         Ok(())
     }
-- 
2.43.0


From 5070d9bc1fd905f8621c847bdd3ce0954964d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 38/73] fix: a request whose client is gone keeps its pool slot
 for ever

---
 src/execution_context.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 1383892..edfbbca 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -899,8 +899,9 @@ impl ExecutionContext {
     /// Drain remaining background work (waitUntil promises) after exec().
     ///
     /// After exec() returns with `StreamsComplete`, the HTTP response is sent
-    /// and all response streams are closed, but waitUntil promises may still
-    /// be pending. This method pumps V8 microtasks until `FullyComplete`.
+    /// and all response streams are closed (or their client is gone), but waitUntil
+    /// promises may still be pending. This method pumps V8 microtasks until
+    /// `HandlerComplete`.
     ///
     /// Creates its own security guards so background work cannot run forever.
     /// Returns Ok if all background work completed, or an error if it timed out.
@@ -917,7 +918,7 @@ impl ExecutionContext {
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
         let result = self
-            .await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None)
+            .await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::HandlerComplete, None)
             .await;
 
         self.check_termination_reason(
-- 
2.43.0


From 27cf2a220477552b113f2c6b9a82e338d0f87011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 39/73] fix: requests and bodies given in any form arrive as
 made

Bodies given as ArrayBuffer or a view were used without copying, so a later change of the
caller's buffer changed the message; DataView, Blob, FormData and URLSearchParams bodies of
Request and Response were turned to text; fetch() of a binding took fewer forms of headers
and bodies than fetch() and never settled when given others.
---
 src/runtime/bindings/fetch.rs   |  72 +-----------------
 src/runtime/bindings/web_api.rs | 126 ++++++++++++++++++++++++--------
 src/worker.rs                   |  45 ++++++------
 3 files changed, 120 insertions(+), 123 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 044321a..a13860f 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -484,54 +484,9 @@ pub fn setup_fetch(
 
     // JavaScript fetch implementation using Promises with streaming support
     let code = r#"
-        // Serialize FormData to multipart/form-data
-        async function __serializeFormData(formData) {
-            const boundary = '----OpenWorkersBoundary' + Math.random().toString(36).slice(2);
-            const CRLF = '\r\n';
-            const parts = [];
-
-            for (const [name, value, filename] of formData._entries) {
-                let part = '--' + boundary + CRLF;
-
-                if (value instanceof Blob) {
-                    const fname = filename || (value.name ? value.name : 'blob');
-                    part += 'Content-Disposition: form-data; name="' + name + '"; filename="' + fname + '"' + CRLF;
-                    part += 'Content-Type: ' + (value.type || 'application/octet-stream') + CRLF + CRLF;
-
-                    const headerBytes = new TextEncoder().encode(part);
-                    const blobBytes = value._getBytes();
-                    const crlfBytes = new TextEncoder().encode(CRLF);
-
-                    parts.push(headerBytes);
-                    parts.push(blobBytes);
-                    parts.push(crlfBytes);
-                } else {
-                    part += 'Content-Disposition: form-data; name="' + name + '"' + CRLF + CRLF;
-                    part += String(value) + CRLF;
-                    parts.push(new TextEncoder().encode(part));
-                }
-            }
-
-            parts.push(new TextEncoder().encode('--' + boundary + '--' + CRLF));
-
-            // Concatenate all parts
-            const totalLength = parts.reduce((sum, p) => sum + p.length, 0);
-            const result = new Uint8Array(totalLength);
-            let offset = 0;
-
-            for (const part of parts) {
-                result.set(part, offset);
-                offset += part.length;
-            }
-
-            return { body: result, boundary: boundary };
-        }
-
         globalThis.fetch = async function(input, options) {
-            // Normalize input (handles Request, URL, string)
-            const normalized = __normalizeFetchInput(input, options);
-            let { url, method, headers, body } = normalized;
-            let contentType = null;
+            // Normalize input (handles Request, URL, string, every form of headers and body)
+            let { url, method, headers, body } = __normalizeFetchInput(input, options);
 
             // Handle ReadableStream body - buffer it first (returns Uint8Array)
             if (body instanceof ReadableStream) {
@@ -539,29 +494,6 @@ pub fn setup_fetch(
                 body = await __bufferBody(body);
             }
 
-            // Handle FormData body - serialize to multipart/form-data
-            if (body instanceof FormData) {
-                const serialized = await __serializeFormData(body);
-                body = serialized.body;
-                contentType = 'multipart/form-data; boundary=' + serialized.boundary;
-            }
-
-            // Handle URLSearchParams body - serialize to form-encoded string
-            if (body instanceof URLSearchParams) {
-                body = new TextEncoder().encode(body.toString());
-                if (!contentType) contentType = 'application/x-www-form-urlencoded;charset=UTF-8';
-            }
-
-            // Convert string/primitive body to Uint8Array for native consumption
-            if (body !== null && typeof body !== 'object') {
-                body = new TextEncoder().encode(String(body));
-            }
-
-            // Set Content-Type if not already set (FormData or URLSearchParams)
-            if (contentType && !headers['Content-Type'] && !headers['content-type']) {
-                headers['Content-Type'] = contentType;
-            }
-
             // Check for WebSocket upgrade
             const upgradeKey = Object.keys(headers).find(
                 function(k) { return k.toLowerCase() === 'upgrade'; }
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 1bb8073..f654a2a 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -850,20 +850,13 @@ pub fn setup_request(scope: &mut v8::PinScope) {
             _initBody(body) {
                 if (body instanceof ReadableStream) {
                     this.body = body;
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
-                    this.body = new ReadableStream({
-                        start(controller) {
-                            controller.enqueue(bytes);
-                            controller.close();
-                        }
-                    });
                 } else if (body === null || body === undefined) {
                     this.body = null;
                 } else {
-                    // String or other
-                    const encoder = new TextEncoder();
-                    const bytes = encoder.encode(String(body));
+                    const { bytes, type } = __extractBody(body);
+                    if (type && !this.headers.has('content-type')) {
+                        this.headers.set('content-type', type);
+                    }
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
@@ -1100,21 +1093,14 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     if (body._nativeStreamId !== undefined) {
                         this._nativeStreamId = body._nativeStreamId;
                     }
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
-                    this.body = new ReadableStream({
-                        start(controller) {
-                            controller.enqueue(bytes);
-                            controller.close();
-                        }
-                    });
-                    this._isBuffered = true; // Data fully available - can use _getRawBody()
                 } else if (body === null || body === undefined) {
                     this.body = null;
                     this._isBuffered = true; // No body - definitely buffered
                 } else {
-                    const encoder = new TextEncoder();
-                    const bytes = encoder.encode(String(body));
+                    const { bytes, type } = __extractBody(body);
+                    if (type && !this.headers.has('content-type')) {
+                        this.headers.set('content-type', type);
+                    }
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
@@ -1396,16 +1382,94 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 /// Provides:
 /// - `__normalizeFetchInput(input, options)` - normalizes Request/URL/string to fetch options
 /// - `__bufferBody(body)` - buffers ReadableStream body to Uint8Array
+/// - `__extractBody(body)` - bytes and content type of any other body
 ///
 /// __normalizeFetchInput handles:
 /// - Request objects (clones properties, respects options override)
 /// - URL objects (converts to string via href)
 /// - String URLs
-/// - Normalizes Headers instances to plain objects
+/// - Headers of every form (as a plain object)
+/// - Bodies of every form (as bytes; streams are left to __bufferBody)
 ///
 /// Returns: { url, method, headers, body }
 pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
     let code = r#"
+        // Serialize FormData to multipart/form-data
+        globalThis.__serializeFormData = function(formData) {
+            const boundary = '----OpenWorkersBoundary' + Math.random().toString(36).slice(2);
+            const CRLF = '\r\n';
+            const parts = [];
+
+            for (const [name, value, filename] of formData._entries) {
+                let part = '--' + boundary + CRLF;
+
+                if (value instanceof Blob) {
+                    const fname = filename || (value.name ? value.name : 'blob');
+                    part += 'Content-Disposition: form-data; name="' + name + '"; filename="' + fname + '"' + CRLF;
+                    part += 'Content-Type: ' + (value.type || 'application/octet-stream') + CRLF + CRLF;
+
+                    const headerBytes = new TextEncoder().encode(part);
+                    const blobBytes = value._getBytes();
+                    const crlfBytes = new TextEncoder().encode(CRLF);
+
+                    parts.push(headerBytes);
+                    parts.push(blobBytes);
+                    parts.push(crlfBytes);
+                } else {
+                    part += 'Content-Disposition: form-data; name="' + name + '"' + CRLF + CRLF;
+                    part += String(value) + CRLF;
+                    parts.push(new TextEncoder().encode(part));
+                }
+            }
+
+            parts.push(new TextEncoder().encode('--' + boundary + '--' + CRLF));
+
+            // Concatenate all parts
+            const totalLength = parts.reduce((sum, p) => sum + p.length, 0);
+            const result = new Uint8Array(totalLength);
+            let offset = 0;
+
+            for (const part of parts) {
+                result.set(part, offset);
+                offset += part.length;
+            }
+
+            return { body: result, boundary: boundary };
+        };
+
+        // The bytes of a body given in any form but a stream (a copy: the caller may go on
+        // changing its own), and the content type that form implies
+        globalThis.__extractBody = function(body) {
+            if (body instanceof URLSearchParams) {
+                return {
+                    bytes: new TextEncoder().encode(body.toString()),
+                    type: 'application/x-www-form-urlencoded;charset=UTF-8'
+                };
+            }
+
+            if (body instanceof FormData) {
+                const { body: bytes, boundary } = __serializeFormData(body);
+                return { bytes, type: 'multipart/form-data; boundary=' + boundary };
+            }
+
+            if (body instanceof Blob) {
+                return { bytes: body._getBytes().slice(), type: body.type || null };
+            }
+
+            if (body instanceof ArrayBuffer) {
+                return { bytes: new Uint8Array(body.slice(0)), type: null };
+            }
+
+            if (ArrayBuffer.isView(body)) {
+                return {
+                    bytes: new Uint8Array(body.buffer, body.byteOffset, body.byteLength).slice(),
+                    type: null
+                };
+            }
+
+            return { bytes: new TextEncoder().encode(String(body)), type: null };
+        };
+
         // Buffer a ReadableStream body to Uint8Array
         globalThis.__bufferBody = async function(body) {
             if (!body || !(body instanceof ReadableStream)) {
@@ -1474,16 +1538,18 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 body = options.body !== undefined ? options.body : null;
             }
 
-            // Normalize Headers instance to plain object
-            if (headers instanceof Headers) {
-                const obj = {};
-                for (const [key, value] of headers) {
-                    obj[key] = value;
+            headers = new Headers(headers);
+
+            // A stream is left to be buffered, any other body is made bytes
+            if (body !== null && !(body instanceof ReadableStream)) {
+                const { bytes, type } = __extractBody(body);
+                body = bytes;
+                if (type && !headers.has('content-type')) {
+                    headers.set('content-type', type);
                 }
-                headers = obj;
             }
 
-            return { url, method, headers, body };
+            return { url, method: String(method).toUpperCase(), headers: Object.fromEntries(headers), body };
         };
     "#;
 
diff --git a/src/worker.rs b/src/worker.rs
index 92e7bf4..7c9e990 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1192,10 +1192,13 @@ pub(crate) fn setup_env(
                     // Supports Request, URL, and string inputs (like standard fetch)
                     format!(
                         r#"{name}: {{
-                            fetch: function(input, options) {{
+                            fetch: async function(input, options) {{
+                                const fetchOptions = __normalizeFetchInput(input, options);
+                                // Buffer ReadableStream body for serialization
+                                if (fetchOptions.body instanceof ReadableStream) {{
+                                    fetchOptions.body = await __bufferBody(fetchOptions.body);
+                                }}
                                 return new Promise((resolve, reject) => {{
-                                    const {{ url, method, headers, body }} = __normalizeFetchInput(input, options);
-                                    const fetchOptions = {{ url, method, headers, body }};
                                     __nativeBindingFetch({name}, fetchOptions, (meta) => {{
                                         const stream = __createNativeStream(meta.streamId);
                                         const response = new Response(stream, {{
@@ -1281,27 +1284,23 @@ pub(crate) fn setup_env(
                     // Supports Request, URL, and string inputs (like standard fetch)
                     format!(
                         r#"{name}: {{
-                            fetch: function(input, options) {{
+                            fetch: async function(input, options) {{
+                                const fetchOptions = __normalizeFetchInput(input, options);
+                                // Buffer ReadableStream body for serialization
+                                if (fetchOptions.body instanceof ReadableStream) {{
+                                    fetchOptions.body = await __bufferBody(fetchOptions.body);
+                                }}
                                 return new Promise((resolve, reject) => {{
-                                    const processRequest = async () => {{
-                                        const normalized = __normalizeFetchInput(input, options);
-                                        // Buffer ReadableStream body for serialization
-                                        normalized.body = await __bufferBody(normalized.body);
-                                        return normalized;
-                                    }};
-
-                                    processRequest().then((fetchOptions) => {{
-                                        __nativeBindingWorker({name}, fetchOptions, (meta) => {{
-                                            const stream = __createNativeStream(meta.streamId);
-                                            const response = new Response(stream, {{
-                                                status: meta.status,
-                                                headers: meta.headers
-                                            }});
-                                            response.ok = meta.status >= 200 && meta.status < 300;
-                                            response.statusText = meta.statusText;
-                                            resolve(response);
-                                        }}, reject);
-                                    }}).catch(reject);
+                                    __nativeBindingWorker({name}, fetchOptions, (meta) => {{
+                                        const stream = __createNativeStream(meta.streamId);
+                                        const response = new Response(stream, {{
+                                            status: meta.status,
+                                            headers: meta.headers
+                                        }});
+                                        response.ok = meta.status >= 200 && meta.status < 300;
+                                        response.statusText = meta.statusText;
+                                        resolve(response);
+                                    }}, reject);
                                 }});
                             }}
                         }}"#,
-- 
2.43.0


From 14c8b8360cdf1742d8be40832b59c885cf476581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 40/73] fix: refuse a binding call that cannot be made

A call whose arguments could not be converted was dropped: its promise never settled. A
request with a method the host does not know was sent as a GET.
---
 src/runtime/bindings/fetch.rs | 52 +++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index a13860f..d763a2a 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -63,19 +63,33 @@ struct DatabaseParams {
     params: Vec<SqlParam>,
 }
 
+/// Call a script's error callback: a call that cannot be made is refused, not left pending
+fn refuse(scope: &mut v8::PinScope, error_fn: v8::Local<v8::Value>, msg: &str) {
+    if let Ok(error_fn) = v8::Local::<v8::Function>::try_from(error_fn) {
+        let error_msg = v8::String::new(scope, msg).unwrap();
+        let error = v8::Exception::type_error(scope, error_msg);
+        let recv = v8::undefined(scope);
+        error_fn.call(scope, recv.into(), &[error]);
+    }
+}
+
 /// Parse JS options object into HttpRequest using serde_v8
 fn parse_http_request(
     scope: &mut v8::PinScope,
     options: v8::Local<v8::Value>,
-) -> Option<HttpRequest> {
-    let opts: FetchOptions = serde_v8::from_v8_any(scope, options).ok()?;
-    let method = opts.method.parse().unwrap_or(HttpMethod::Get);
+) -> Result<HttpRequest, String> {
+    let opts: FetchOptions =
+        serde_v8::from_v8_any(scope, options).map_err(|e| format!("Invalid request: {}", e))?;
+    let method: HttpMethod = opts
+        .method
+        .parse()
+        .map_err(|_| format!("Unsupported method: {}", opts.method))?;
     let body = match opts.body {
         Some(buf) => RequestBody::Bytes(bytes::Bytes::from(buf.to_vec())),
         None => RequestBody::None,
     };
 
-    Some(HttpRequest {
+    Ok(HttpRequest {
         url: opts.url,
         method,
         headers: opts.headers,
@@ -146,12 +160,13 @@ where
                 return;
             };
 
-            let Some(request) = parse_http_request(scope, args.get(1)) else {
-                return;
-            };
-
             let (success_cb, error_cb) = (args.get(2), args.get(3));
 
+            let request = match parse_http_request(scope, args.get(1)) {
+                Ok(request) => request,
+                Err(msg) => return refuse(scope, error_cb, &msg),
+            };
+
             if !success_cb.is_function() || !error_cb.is_function() {
                 return;
             }
@@ -203,8 +218,9 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Some(request) = parse_http_request(scope, args.get(0)) else {
-                return;
+            let request = match parse_http_request(scope, args.get(0)) {
+                Ok(request) => request,
+                Err(msg) => return refuse(scope, args.get(2), &msg),
             };
 
             let resolve_val = args.get(1);
@@ -257,8 +273,12 @@ pub fn setup_fetch(
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) else {
-                return;
+            let params = match serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) {
+                Ok(params) => params,
+                Err(e) => {
+                    let msg = format!("Invalid parameters: {}", e);
+                    return refuse(scope, args.get(4), &msg);
+                }
             };
 
             let storage_op = match operation.as_str() {
@@ -324,8 +344,12 @@ pub fn setup_fetch(
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) else {
-                return;
+            let params = match serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) {
+                Ok(params) => params,
+                Err(e) => {
+                    let msg = format!("Invalid parameters: {}", e);
+                    return refuse(scope, args.get(4), &msg);
+                }
             };
 
             let kv_op = match operation.as_str() {
-- 
2.43.0


From d3468b8d0b416fdd765eb20e44f12f5d65aea6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 41/73] fix: cyclic or deeply nested values given to KV and
 database bindings crash the process

They were converted by unbounded recursion. KV values are passed as JSON text (large
integers are kept, too), database parameters are checked for their nesting. storage.put()
takes every form of a body.
---
 src/runtime/bindings/fetch.rs   | 24 ++++++++++++++++++------
 src/runtime/bindings/web_api.rs | 13 +++++++++++++
 src/worker.rs                   | 20 +++++++++++++++-----
 3 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index d763a2a..fb2073e 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -44,8 +44,9 @@ struct StorageParams {
 struct KvParams {
     #[serde(default)]
     key: String,
+    /// JSON text
     #[serde(default)]
-    value: Option<serde_json::Value>,
+    value: Option<String>,
     #[serde(default, rename = "expiresIn")]
     expires_in: Option<u64>,
     #[serde(default)]
@@ -354,11 +355,22 @@ pub fn setup_fetch(
 
             let kv_op = match operation.as_str() {
                 "get" => KvOp::Get { key: params.key },
-                "put" => KvOp::Put {
-                    key: params.key,
-                    value: params.value.unwrap_or(serde_json::Value::Null),
-                    expires_in: params.expires_in,
-                },
+                "put" => {
+                    let json = params.value.as_deref().unwrap_or("null");
+                    let value = match serde_json::from_str(json) {
+                        Ok(value) => value,
+                        Err(e) => {
+                            let msg = format!("Invalid value: {}", e);
+                            return refuse(scope, args.get(4), &msg);
+                        }
+                    };
+
+                    KvOp::Put {
+                        key: params.key,
+                        value,
+                        expires_in: params.expires_in,
+                    }
+                }
                 "delete" => KvOp::Delete { key: params.key },
                 "list" => KvOp::List {
                     prefix: params.prefix,
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index f654a2a..bf27938 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1507,6 +1507,19 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
             });
         };
 
+        // Refuse a value nested deeper than the native side converts (or cyclic)
+        globalThis.__checkNesting = function(value, depth = 0) {
+            if (depth > 64) {
+                throw new TypeError('Value is cyclic or nested too deeply');
+            }
+
+            if (value !== null && typeof value === 'object') {
+                for (const key of Object.keys(value)) {
+                    __checkNesting(value[key], depth + 1);
+                }
+            }
+        };
+
         globalThis.__normalizeFetchInput = function(input, options) {
             options = options || {};
             let url, method, headers, body;
diff --git a/src/worker.rs b/src/worker.rs
index 7c9e990..6cf05b4 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1220,8 +1220,10 @@ pub(crate) fn setup_env(
                         r#"{name}: {{
                             get: (key) => __bindingCall(__nativeBindingStorage, {name}, 'get', {{ key }})
                                 .then(r => r.body ? new TextDecoder().decode(r.body) : null),
-                            put: (key, value) => {{
-                                const body = typeof value === 'string' ? new TextEncoder().encode(value) : value;
+                            put: async (key, value) => {{
+                                const body = value instanceof ReadableStream ? await __bufferBody(value)
+                                    : value === null || value === undefined ? undefined
+                                    : __extractBody(value).bytes;
                                 return __bindingCall(__nativeBindingStorage, {name}, 'put', {{ key, body }}).then(() => {{}});
                             }},
                             head: (key) => __bindingCall(__nativeBindingStorage, {name}, 'head', {{ key }})
@@ -1251,8 +1253,13 @@ pub(crate) fn setup_env(
                             const __n = {name};
                             return {{
                                 get: (key) => __bindingCall(__nativeBindingKv, __n, 'get', {{ key }}).then(r => r.value),
-                                put: (key, value, options) => {{
-                                    const params = {{ key, value }};
+                                put: async (key, value, options) => {{
+                                    // As JSON text: what is not JSON (cyclic, ...) is refused
+                                    const json = JSON.stringify(value);
+                                    if (json === undefined && value !== undefined) {{
+                                        throw new TypeError('Value is not JSON');
+                                    }}
+                                    const params = {{ key, value: json }};
                                     if (options?.expiresIn) params.expiresIn = options.expiresIn;
                                     return __bindingCall(__nativeBindingKv, __n, 'put', params).then(() => {{}});
                                 }},
@@ -1274,7 +1281,10 @@ pub(crate) fn setup_env(
                         r#"{name}: (function() {{
                             const __n = {name};
                             return {{
-                                query: (sql, params) => __bindingCall(__nativeBindingDatabase, __n, 'query', {{ sql, params: params || [] }}).then(r => r.rows)
+                                query: async (sql, params) => {{
+                                    __checkNesting(params);
+                                    return __bindingCall(__nativeBindingDatabase, __n, 'query', {{ sql, params: params || [] }}).then(r => r.rows);
+                                }}
                             }};
                         }})()"#,
                     )
-- 
2.43.0


From e2bf2e530232a546ebd8da3da563cf06bfa02a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 42/73] fix: a response that has been cloned is sent with its
 body

The body was taken from the queue of the stream, which tee() leaves empty.
---
 src/runtime/bindings/web_api.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index bf27938..12b9292 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1323,6 +1323,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 if (this.body) {
                     const [stream1, stream2] = this.body.tee();
                     this.body = stream1;
+                    this._isBuffered = false; // What is left to read is a stream
                     clonedBody = stream2;
                 }
 
-- 
2.43.0


From b8c78ff61a11a94fbe07f9a3585e96ff431b1396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 43/73] fix: a Response has headers of its own

It shared a Headers instance given to it: changing the one changed the other.
---
 src/runtime/bindings/web_api.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 12b9292..4c96c09 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1077,12 +1077,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 this.type = init.type || 'default';
                 this.redirected = init.redirected || false;
 
-                // Convert headers to Headers instance
-                if (init.headers instanceof Headers) {
-                    this.headers = init.headers;
-                } else {
-                    this.headers = new Headers(init.headers);
-                }
+                // A Headers instance of its own: the caller may go on changing the one given
+                this.headers = new Headers(init.headers);
 
                 // Support different body types - all wrapped in ReadableStream
                 // _isBuffered marks responses where body data is already fully available
-- 
2.43.0


From a9849161c5cb423210c61450aef43294fc3fdc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 44/73] fix: a request's __proto__ header is kept

Setting it on a plain object set that object's prototype instead.
---
 src/execution_helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 3f6cc4a..f82d6ce 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -360,7 +360,7 @@ pub fn trigger_fetch_handler(
         for (key, value) in headers {
             let k = v8::String::new(scope, key).unwrap();
             let v = v8::String::new(scope, value).unwrap();
-            headers_obj.set(scope, k.into(), v.into());
+            headers_obj.create_data_property(scope, k.into(), v.into());
         }
 
         let headers_key = v8::String::new(scope, "headers").unwrap();
@@ -406,7 +406,7 @@ pub fn trigger_fetch_handler(
         for (key, value) in headers {
             let k = v8::String::new(scope, key).unwrap();
             let v = v8::String::new(scope, value).unwrap();
-            headers_obj.set(scope, k.into(), v.into());
+            headers_obj.create_data_property(scope, k.into(), v.into());
         }
 
         let headers_key = v8::String::new(scope, "headers").unwrap();
-- 
2.43.0


From f9c80b6af7bb0e11ad652ec311b7eea0d4e42b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:45 +0000
Subject: [PATCH 45/73] fix: accept() on a connecting WebSocket left it deaf
 for ever

---
 src/runtime/bindings/websocket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 2607464..d2e0b1d 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -294,7 +294,7 @@ pub fn setup_websocket(
             // Start pumping inbound messages. Auto-called on the standard path;
             // called explicitly via accept() on the fetch(Upgrade) path.
             _startReceiving() {
-                if (this._accepted) return;
+                if (this._accepted || this._wsId === null) return;
                 this._accepted = true;
                 const self = this;
 
-- 
2.43.0


From bec9cd5d6a202d19fac066fc33b8a98245421415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:45 +0000
Subject: [PATCH 46/73] fix: a Blob sent over a WebSocket went out as [object
 Object]

---
 src/runtime/bindings/websocket.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index d2e0b1d..62fb4f3 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -321,6 +321,7 @@ pub fn setup_websocket(
                 if (this.readyState !== WS_OPEN) {
                     return; // CLOSING/CLOSED: data is silently discarded per spec
                 }
+                if (data instanceof Blob) data = data._getBytes();
                 __nativeWebSocketSend(this._wsId, data);
             }
 
-- 
2.43.0


From b83594f99aa6c93af582deab95c092c9c3f2d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:45 +0000
Subject: [PATCH 47/73] fix: a listener added twice to a WebSocket was called
 twice

---
 src/runtime/bindings/websocket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 62fb4f3..a44ba77 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -344,7 +344,7 @@ pub fn setup_websocket(
             }
 
             addEventListener(type, listener) {
-                if (this._listeners[type]) {
+                if (this._listeners[type] && !this._listeners[type].includes(listener)) {
                     this._listeners[type].push(listener);
                 }
             }
-- 
2.43.0


From 925db535a6f0bf3c830a8aa3738520dac082e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:45 +0000
Subject: [PATCH 48/73] fix: a WebSocket that is closed or lost gets its close
 event

---
 src/runtime/bindings/websocket.rs |  4 +++-
 src/runtime/scheduler.rs          | 30 ++++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index a44ba77..7f24924 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -300,10 +300,11 @@ pub fn setup_websocket(
 
                 __nativeWebSocketAccept(this._wsId, function(eventType, arg1, arg2) {
                     if (eventType === 'message') {
+                        if (self.readyState !== WS_OPEN) return;
                         self._dispatch('message', { type: 'message', data: arg1 });
                     } else if (eventType === 'close') {
                         self.readyState = WS_CLOSED;
-                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: true });
+                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: arg1 !== 1006 });
                     } else if (eventType === 'error') {
                         self._dispatch('error', { type: 'error', message: arg1 });
                     }
@@ -340,6 +341,7 @@ pub fn setup_websocket(
                     return;
                 }
                 this.readyState = WS_CLOSING;
+                this._startReceiving(); // the close event
                 __nativeWebSocketClose(this._wsId, code === undefined ? 1000 : code, reason === undefined ? '' : reason);
             }
 
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 605c907..7ceba79 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -382,6 +382,7 @@ pub async fn run_event_loop(
                         // Create command channel BEFORE spawning so we can store the
                         // sender synchronously in the event loop's state.
                         let (cmd_tx, cmd_rx) = mpsc::unbounded_channel();
+                        ws_commands.retain(|_, tx| !tx.is_closed());
                         ws_commands.insert(ws_id, cmd_tx);
 
                         let callback_tx = callback_tx.clone();
@@ -409,7 +410,7 @@ pub async fn run_event_loop(
                     }
 
                     SchedulerMessage::WebSocketClose(ws_id, code, reason) => {
-                        if let Some(tx) = ws_commands.remove(&ws_id) {
+                        if let Some(tx) = ws_commands.get(&ws_id) {
                             let _ = tx.send(WebSocketCommand::Close(code, reason));
                         }
                     }
@@ -636,7 +637,7 @@ async fn run_websocket(
         }
     };
 
-    let send_tx = conn.send_tx;
+    let mut send_tx = Some(conn.send_tx);
     let mut recv_rx = conn.recv_rx;
     let mut accepted = false;
 
@@ -655,11 +656,19 @@ async fn run_websocket(
                         accepted = true;
                     }
                     WebSocketCommand::Send(msg) => {
-                        let _ = send_tx.send(msg);
+                        if let Some(send_tx) = &send_tx {
+                            let _ = send_tx.send(msg);
+                        }
                     }
                     WebSocketCommand::Close(code, reason) => {
-                        let _ = send_tx.send(WebSocketOutgoing::Close { code, reason });
-                        break;
+                        // Nothing is sent after it, but the close event is still to come
+                        if let Some(send_tx) = send_tx.take() {
+                            let _ = send_tx.send(WebSocketOutgoing::Close { code, reason });
+                        }
+
+                        if !accepted {
+                            break;
+                        }
                     }
                 }
             }
@@ -667,12 +676,21 @@ async fn run_websocket(
             msg = recv_rx.recv(), if accepted => {
                 match msg {
                     Some(incoming) => {
+                        let closed = matches!(incoming, WebSocketIncoming::Closed { .. });
                         let _ = callback_tx.send(
                             CallbackMessage::WebSocketEvent(ws_id, incoming),
                         );
+
+                        if closed {
+                            break;
+                        }
                     }
                     None => {
-                        // Runner dropped the sender — connection is done
+                        // Runner dropped the sender — connection is lost
+                        let _ = callback_tx.send(CallbackMessage::WebSocketEvent(
+                            ws_id,
+                            WebSocketIncoming::Closed { code: 1006, reason: String::new() },
+                        ));
                         break;
                     }
                 }
-- 
2.43.0


From 6a23915bb49819b04d0873af846ba78ee40effaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:45 +0000
Subject: [PATCH 49/73] fix: WebSockets outlived their request in a reused
 context

---
 src/execution_context.rs | 6 ++++++
 src/runtime/scheduler.rs | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index edfbbca..417b3fb 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -921,6 +921,12 @@ impl ExecutionContext {
             .await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::HandlerComplete, None)
             .await;
 
+        // The request is over, and with it its WebSockets
+        let _ = self
+            .request
+            .scheduler_tx
+            .send(crate::runtime::SchedulerMessage::WebSocketCloseAll);
+
         self.check_termination_reason(
             result.map(|_| HttpResponse {
                 status: 200,
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 7ceba79..84c9f06 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -67,6 +67,8 @@ pub enum SchedulerMessage {
     WebSocketAccept(WebSocketId),
     WebSocketSend(WebSocketId, WebSocketOutgoing),
     WebSocketClose(WebSocketId, u16, String),
+    /// The request is over: drop all its WebSockets
+    WebSocketCloseAll,
     Shutdown,
 }
 
@@ -415,6 +417,8 @@ pub async fn run_event_loop(
                         }
                     }
 
+                    SchedulerMessage::WebSocketCloseAll => ws_commands.clear(),
+
                     SchedulerMessage::StreamRead(callback_id, stream_id) => {
                         let callback_tx = callback_tx.clone();
                         let manager = stream_manager.clone();
@@ -616,6 +620,7 @@ async fn run_websocket(
     let result = tokio::select! {
         biased;
         _ = cancel.cancelled() => return,
+        None = cmd_rx.recv() => return, // the request is over
         r = ops.handle(Operation::WebSocketConnect { url, headers }) => r,
     };
 
-- 
2.43.0


From 1cf446a76b4cd4ad3a5075ee7faf9135c5999a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:55 +0000
Subject: [PATCH 50/73] fix: a request waited on after it had exhausted the
 heap

---
 src/execution_context.rs      | 24 +++++++++++++++++++++++-
 src/locker_managed_isolate.rs |  5 ++---
 src/request_context.rs        |  4 ++++
 src/runtime/mod.rs            |  5 ++---
 src/security/heap_limit.rs    | 15 +++++++++++++++
 src/worker.rs                 |  4 ++++
 6 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 417b3fb..c6ff158 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -977,10 +977,26 @@ impl ExecutionContext {
         }
     }
 
+    /// Whether JS of this request was terminated because the heap was exhausted.
+    ///
+    /// The heap is the isolate's, so this has to be called (with the V8 lock held)
+    /// before another request gets to run.
+    fn heap_exhausted(&self) -> bool {
+        // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
+        if let Some(lmi) = unsafe { self.lmi_ptr.as_ref() }
+            && lmi.heap_limit_state.take_terminated()
+        {
+            self.request.heap_exhausted.store(true, Ordering::SeqCst);
+        }
+
+        self.request.heap_exhausted.load(Ordering::SeqCst)
+    }
+
     /// Check if execution should be terminated
     ///
     /// Returns true if any termination condition is met:
     /// - V8 execution terminating
+    /// - JS was terminated because the heap was exhausted
     /// - Wall-clock timeout triggered
     /// - CPU time limit exceeded (Linux only)
     #[inline]
@@ -991,6 +1007,7 @@ impl ExecutionContext {
     ) -> bool {
         unsafe {
             (*self.isolate).is_execution_terminating()
+                || self.heap_exhausted()
                 || wall_guard.was_triggered()
                 || cpu_guard
                     .as_ref()
@@ -1187,6 +1204,8 @@ impl ExecutionContext {
                     )
                 };
 
+                self.heap_exhausted();
+
                 if let Some(ref waiter) = async_waiter {
                     waiter.unlock();
                 }
@@ -1367,6 +1386,8 @@ impl ExecutionContext {
                     }
                 };
 
+                self.heap_exhausted();
+
                 if let Some(ref waiter) = async_waiter {
                     waiter.unlock();
                 }
@@ -1497,8 +1518,9 @@ impl ExecutionContext {
             .to_string(),
         ))?;
 
-        // 2. Reset Rust-side abort flag
+        // 2. Reset Rust-side abort and heap flags
         self.request.aborted.store(false, Ordering::SeqCst);
+        self.request.heap_exhausted.store(false, Ordering::SeqCst);
 
         // 3. Clear stream manager (removes all senders/receivers/metadata)
         self.request.stream_manager.clear();
diff --git a/src/locker_managed_isolate.rs b/src/locker_managed_isolate.rs
index f413be5..54aedca 100644
--- a/src/locker_managed_isolate.rs
+++ b/src/locker_managed_isolate.rs
@@ -40,8 +40,7 @@ pub struct LockerManagedIsolate {
     /// Per-isolate (not global) to prevent cross-isolate contamination.
     pub pending_memory_delta: Arc<AtomicI64>,
     /// Heap limit state - must be kept alive for the isolate's lifetime
-    #[allow(dead_code)]
-    _heap_limit_state: Box<HeapLimitState>,
+    pub(crate) heap_limit_state: Box<HeapLimitState>,
 }
 
 impl LockerManagedIsolate {
@@ -115,7 +114,7 @@ impl LockerManagedIsolate {
             use_snapshot,
             deferred_destruction_queue: Arc::new(DeferredDestructionQueue::new()),
             pending_memory_delta: Arc::new(AtomicI64::new(0)),
-            _heap_limit_state: heap_limit_state,
+            heap_limit_state,
         }
     }
 
diff --git a/src/request_context.rs b/src/request_context.rs
index a965a94..b340847 100644
--- a/src/request_context.rs
+++ b/src/request_context.rs
@@ -68,6 +68,9 @@ pub struct RequestContext {
     /// Abort flag (set on client disconnect or explicit abort)
     pub aborted: Arc<AtomicBool>,
 
+    /// JS of this request was terminated because the isolate's heap was exhausted
+    pub heap_exhausted: AtomicBool,
+
     /// Cancellation token for all spawned I/O tasks — automatically cancelled on drop
     _cancel_guard: DropGuard,
 }
@@ -106,6 +109,7 @@ impl RequestContext {
             signal: Arc::default(),
             event_loop_handle: AbortOnDropHandle::new(event_loop_handle),
             aborted: Arc::new(AtomicBool::new(false)),
+            heap_exhausted: AtomicBool::new(false),
             _cancel_guard: cancel.drop_guard(),
         }
     }
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c6c5eb6..0e986e7 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -154,8 +154,7 @@ pub struct Runtime {
     pub(crate) callback_notify: Arc<Notify>,
     /// Heap limit state - must be kept alive for the isolate's lifetime
     /// Dropped after isolate, so the callback pointer remains valid
-    #[allow(dead_code)]
-    _heap_limit_state: Box<HeapLimitState>,
+    pub(crate) heap_limit_state: Box<HeapLimitState>,
 }
 
 impl Runtime {
@@ -345,7 +344,7 @@ impl Runtime {
             memory_limit_hit,
             limits,
             callback_notify: callback_notify.clone(),
-            _heap_limit_state: heap_limit_state,
+            heap_limit_state,
         };
 
         (runtime, scheduler_rx, callback_tx, callback_notify)
diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index acaad8c..905a3a8 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -36,6 +36,9 @@ pub struct HeapLimitState {
     pub memory_limit_hit: Arc<AtomicBool>,
     /// Number of times the callback has been invoked
     pub invocation_count: AtomicU32,
+    /// Set when execution was terminated: V8 forgets it once JS has unwound,
+    /// and whoever ran that JS has to end with it (see `take_terminated`)
+    terminated: AtomicBool,
     /// Maximum heap size in bytes (absolute limit)
     pub max_heap_bytes: usize,
 }
@@ -51,9 +54,20 @@ impl HeapLimitState {
             isolate_handle,
             memory_limit_hit,
             invocation_count: AtomicU32::new(0),
+            terminated: AtomicBool::new(false),
             max_heap_bytes,
         }
     }
+
+    /// Whether JS was terminated because the heap was exhausted.
+    pub fn is_terminated(&self) -> bool {
+        self.terminated.load(Ordering::SeqCst)
+    }
+
+    /// Whether JS was terminated because the heap was exhausted, since the last call.
+    pub fn take_terminated(&self) -> bool {
+        self.terminated.swap(false, Ordering::SeqCst)
+    }
 }
 
 /// Headroom given to V8 after calling `terminate_execution()`.
@@ -96,6 +110,7 @@ pub unsafe extern "C" fn near_heap_limit_callback(
     state.memory_limit_hit.store(true, Ordering::SeqCst);
 
     // Terminate execution gracefully instead of letting V8 crash
+    state.terminated.store(true, Ordering::SeqCst);
     state.isolate_handle.terminate_execution();
 
     tracing::error!(
diff --git a/src/worker.rs b/src/worker.rs
index 6cf05b4..5903aa4 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -623,6 +623,8 @@ impl Worker {
             return Err(TerminationReason::Aborted);
         }
 
+        self.runtime.heap_limit_state.take_terminated();
+
         // Get limits from runtime
         let limits = &self.runtime.limits;
         let isolate_handle = self.runtime.isolate.thread_safe_handle();
@@ -722,11 +724,13 @@ impl Worker {
     ///
     /// Returns true if any termination condition is met:
     /// - V8 isolate is terminating (e.g., from terminate_execution())
+    /// - JS was terminated because the heap was exhausted
     /// - Wall-clock timeout was triggered
     /// - CPU time limit was exceeded (Linux only)
     #[inline]
     fn is_terminated(&self, wall_guard: &TimeoutGuard, cpu_guard: &Option<CpuEnforcer>) -> bool {
         self.runtime.isolate.is_execution_terminating()
+            || self.runtime.heap_limit_state.is_terminated()
             || wall_guard.was_triggered()
             || cpu_guard
                 .as_ref()
-- 
2.43.0


From 1d86dc645e0598675b78f286cb59c8c2aed74cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:55 +0000
Subject: [PATCH 51/73] fix: a script that never finishes loading held its
 thread for ever

---
 src/execution_context.rs | 28 ++++++++++++++++++++++++++--
 src/worker.rs            | 20 ++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index c6ff158..3e2e9ae 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -189,8 +189,32 @@ impl ExecutionContext {
         // Setup environment variables and bindings (placeholder)
         Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
 
-        // Evaluate user script (placeholder)
-        Self::evaluate_script(isolate, &context, &script.code)?;
+        // Evaluate user script, within the limits of an execution
+        {
+            let isolate_handle = isolate.thread_safe_handle();
+            let wall_guard =
+                TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
+            let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
+
+            let result = Self::evaluate_script(isolate, &context, &script.code);
+
+            // SAFETY: lmi_ptr, when non-null, is valid here (pool-managed)
+            if let Some(lmi) = unsafe { lmi_ptr.as_ref() } {
+                lmi.heap_limit_state.take_terminated();
+            }
+
+            result.map_err(|e| {
+                if cpu_guard.as_ref().is_some_and(|g| g.was_terminated()) {
+                    TerminationReason::CpuTimeLimit
+                } else if wall_guard.was_triggered() {
+                    TerminationReason::WallClockTimeout
+                } else if memory_limit_hit.load(Ordering::SeqCst) {
+                    TerminationReason::MemoryLimit
+                } else {
+                    e
+                }
+            })?;
+        }
 
         // Setup ES Modules handler (placeholder)
         Self::setup_es_modules_handler(isolate, &context)?;
diff --git a/src/worker.rs b/src/worker.rs
index 5903aa4..e3c60a8 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -555,11 +555,27 @@ impl Worker {
             TerminationReason::InitializationError(format!("Failed to setup env: {}", e))
         })?;
 
-        // Evaluate user script
+        // Evaluate user script, within the limits of an execution
+        let limits = &runtime.limits;
+        let isolate_handle = runtime.isolate.thread_safe_handle();
+        let wall_guard = TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
+        let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
+
         runtime.evaluate(&script.code).map_err(|e| {
-            TerminationReason::Exception(format!("Script evaluation failed: {}", e))
+            if cpu_guard.as_ref().is_some_and(|g| g.was_terminated()) {
+                TerminationReason::CpuTimeLimit
+            } else if wall_guard.was_triggered() {
+                TerminationReason::WallClockTimeout
+            } else if runtime.memory_limit_hit.load(Ordering::SeqCst) {
+                TerminationReason::MemoryLimit
+            } else {
+                TerminationReason::Exception(format!("Script evaluation failed: {}", e))
+            }
         })?;
 
+        drop(cpu_guard);
+        drop(wall_guard);
+
         // Setup ES Modules handler if `export default { fetch }` is used
         // This takes priority over addEventListener('fetch', ...)
         setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
-- 
2.43.0


From ae5faeb85a47946af4aef18a90dd6dfe99e489cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 52/73] fix: getSetCookie gave away the list of a Headers
 object, and no empty value

---
 src/runtime/bindings/web_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 4c96c09..8105a6e 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -789,10 +789,10 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
             // getSetCookie returns all Set-Cookie headers as array
             getSetCookie() {
                 const value = this._map.get('set-cookie');
-                if (!value) return [];
-                // If it's already an array (multiple set-cookie headers), return it
+                if (value === undefined) return [];
+                // A copy, if it's already an array (multiple set-cookie headers)
                 // Otherwise wrap single value in array
-                return Array.isArray(value) ? value : [value];
+                return Array.isArray(value) ? [...value] : [value];
             }
         };
     "#;
-- 
2.43.0


From e0c50aed465c73eb4544dc5b8a04e71a86c99697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 53/73] fix: URLSearchParams lost or refused parts of a query
 string

---
 src/runtime/bindings/web_api.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 8105a6e..ba902c6 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -459,8 +459,11 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                     const str = init.startsWith('?') ? init.slice(1) : init;
                     if (str) {
                         for (const pair of str.split('&')) {
-                            const [key, value = ''] = pair.split('=').map(decodeURIComponent);
-                            this._entries.push([key, value]);
+                            if (!pair) continue;
+                            const eq = pair.indexOf('=');
+                            const key = eq === -1 ? pair : pair.slice(0, eq);
+                            const value = eq === -1 ? '' : pair.slice(eq + 1);
+                            this._entries.push([this._decode(key), this._decode(value)]);
                         }
                     }
                 } else if (init instanceof URLSearchParams) {
@@ -476,6 +479,24 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                 }
             }
 
+            // Decode a part of a query string; what is no valid escape stands for itself
+            _decode(text) {
+                text = text.replace(/\+/g, ' ');
+                if (!text.includes('%')) return text.toWellFormed();
+                const bytes = new TextEncoder().encode(text);
+                const decoded = [];
+                for (let i = 0; i < bytes.length; i++) {
+                    const hex = bytes[i] === 0x25 ? String.fromCharCode(bytes[i + 1], bytes[i + 2]) : '';
+                    if (/^[0-9a-f]{2}$/i.test(hex)) {
+                        decoded.push(parseInt(hex, 16));
+                        i += 2;
+                    } else {
+                        decoded.push(bytes[i]);
+                    }
+                }
+                return new TextDecoder('utf-8', { ignoreBOM: true }).decode(new Uint8Array(decoded));
+            }
+
             _update() {
                 if (this._url) {
                     const qs = this.toString();
-- 
2.43.0


From acc2bc5e78ecda0dc7ffbd5ae1481ac1e4af8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 54/73] fix: URLSearchParams missed names not given as strings,
 sorted by locale, gave away its entries

---
 src/runtime/bindings/web_api.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index ba902c6..d852219 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -511,21 +511,25 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             delete(name) {
-                this._entries = this._entries.filter(([k]) => k !== name);
+                const strName = String(name);
+                this._entries = this._entries.filter(([k]) => k !== strName);
                 this._update();
             }
 
             get(name) {
-                const entry = this._entries.find(([k]) => k === name);
+                const strName = String(name);
+                const entry = this._entries.find(([k]) => k === strName);
                 return entry ? entry[1] : null;
             }
 
             getAll(name) {
-                return this._entries.filter(([k]) => k === name).map(([, v]) => v);
+                const strName = String(name);
+                return this._entries.filter(([k]) => k === strName).map(([, v]) => v);
             }
 
             has(name) {
-                return this._entries.some(([k]) => k === name);
+                const strName = String(name);
+                return this._entries.some(([k]) => k === strName);
             }
 
             set(name, value) {
@@ -555,7 +559,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             sort() {
-                this._entries.sort((a, b) => a[0].localeCompare(b[0]));
+                this._entries.sort((a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0));
                 this._update();
             }
 
@@ -566,7 +570,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             *entries() {
-                yield* this._entries;
+                for (const [k, v] of this._entries) yield [k, v];
             }
 
             *keys() {
-- 
2.43.0


From af3e4a6b9c71785e66657582497398bf228959c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 55/73] fix: changing the query of a URL dropped its user and
 password

---
 src/runtime/bindings/web_api.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index d852219..82de4d2 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -501,7 +501,9 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                 if (this._url) {
                     const qs = this.toString();
                     this._url.search = qs ? '?' + qs : '';
-                    this._url.href = this._url.origin + this._url.pathname + this._url.search + this._url.hash;
+                    const userinfo = /^[^:]*:\/\/([^@\/?#]*@)/.exec(this._url.href);
+                    this._url.href = (userinfo ? this._url.protocol + '//' + userinfo[1] + this._url.host : this._url.origin)
+                        + this._url.pathname + this._url.search + this._url.hash;
                 }
             }
 
-- 
2.43.0


From 922f19ad5f8a38c46b90e49e01bf17ebcec3f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 56/73] fix: FormData.set moved an entry to the end; values
 were not made text

---
 src/runtime/bindings/web_api.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 82de4d2..ff277b7 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -135,7 +135,12 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 if (value instanceof Blob && filename === undefined && value instanceof File) {
                     filename = value.name;
                 }
-                this._entries.push([String(name), value, filename]);
+                this._entries.push([String(name), this._value(value), filename]);
+            }
+
+            // Files are kept, anything else is text
+            _value(value) {
+                return value instanceof Blob ? value : String(value);
             }
 
             delete(name) {
@@ -164,10 +169,15 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 if (value instanceof Blob && filename === undefined && value instanceof File) {
                     filename = value.name;
                 }
-                // Remove all existing entries with this name
-                this._entries = this._entries.filter(([k]) => k !== strName);
-                // Add the new entry
-                this._entries.push([strName, value, filename]);
+                const entry = [strName, this._value(value), filename];
+                const index = this._entries.findIndex(([k]) => k === strName);
+                if (index === -1) {
+                    this._entries.push(entry);
+                } else {
+                    // Replace the first entry with this name, remove the others
+                    this._entries = this._entries.filter(([k], i) => i === index || k !== strName);
+                    this._entries[index] = entry;
+                }
             }
 
             *entries() {
-- 
2.43.0


From 339712df5146ffdbb5a7f7c82ef49e9e24ddae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 57/73] fix: Headers and URLSearchParams of a Map (or other
 iterable) were empty

---
 src/runtime/bindings/web_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index ff277b7..5bb6150 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -478,7 +478,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                     }
                 } else if (init instanceof URLSearchParams) {
                     this._entries = init._entries.map(e => [...e]);
-                } else if (Array.isArray(init)) {
+                } else if (typeof init === 'object' && typeof init[Symbol.iterator] === 'function') {
                     for (const [key, value] of init) {
                         this._entries.push([String(key), String(value)]);
                     }
@@ -704,8 +704,8 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
                         for (const [key, value] of init.entries()) {
                             this.append(key, value);
                         }
-                    } else if (Array.isArray(init)) {
-                        // Array of [key, value] pairs
+                    } else if (typeof init === 'object' && typeof init[Symbol.iterator] === 'function') {
+                        // Array (or any other iterable) of [key, value] pairs
                         for (const [key, value] of init) {
                             this.append(key, value);
                         }
-- 
2.43.0


From 971c1e05370441d0e4c8acfbd0000c1e826d6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:20 +0000
Subject: [PATCH 58/73] fix: an abort called listeners removed or added while
 it was told

---
 src/runtime/bindings/web_api.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 5bb6150..7f91f3d 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -247,7 +247,9 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
                 this.aborted = true;
                 this.reason = reason;
                 const event = { type: 'abort', target: this };
-                for (const listener of this._listeners) {
+                // Not those added meanwhile, nor those removed before their turn
+                for (const listener of [...this._listeners]) {
+                    if (!this._listeners.includes(listener)) continue;
                     try { listener(event); } catch (e) { console.error(e); }
                 }
             }
-- 
2.43.0


From 735d225b1fb9ed63fdde78d46ed277b495c478b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:20 +0000
Subject: [PATCH 59/73] fix: abort() replaced a reason like 0, null or an empty
 text

---
 src/runtime/bindings/web_api.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 7f91f3d..7786f9c 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -256,7 +256,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
 
             static abort(reason) {
                 const signal = new AbortSignal();
-                signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                signal._abort(reason === undefined ? new DOMException('Aborted', 'AbortError') : reason);
                 return signal;
             }
 
@@ -275,7 +275,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             abort(reason) {
-                this.signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                this.signal._abort(reason === undefined ? new DOMException('Aborted', 'AbortError') : reason);
             }
         };
 
-- 
2.43.0


From 1398c7feb470fec344a52cfd764b3f99fc6b7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:29 +0000
Subject: [PATCH 60/73] fix: structuredClone lost the end of a DataView, and
 which buffers, views and dates are the same

---
 src/runtime/bindings/web_api.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 7786f9c..2851da4 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -315,25 +315,33 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
 
                 // Date
                 if (obj instanceof Date) {
-                    return new Date(obj.getTime());
+                    const copy = new Date(obj.getTime());
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // RegExp
                 if (obj instanceof RegExp) {
-                    return new RegExp(obj.source, obj.flags);
+                    const copy = new RegExp(obj.source, obj.flags);
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // ArrayBuffer
                 if (obj instanceof ArrayBuffer) {
                     const copy = new ArrayBuffer(obj.byteLength);
                     new Uint8Array(copy).set(new Uint8Array(obj));
+                    seen.set(obj, copy);
                     return copy;
                 }
 
-                // TypedArrays
+                // TypedArrays and DataViews
                 if (ArrayBuffer.isView(obj)) {
-                    const TypedArrayConstructor = obj.constructor;
-                    return new TypedArrayConstructor(clone(obj.buffer, seen), obj.byteOffset, obj.length);
+                    const ViewConstructor = obj.constructor;
+                    const length = obj instanceof DataView ? obj.byteLength : obj.length;
+                    const copy = new ViewConstructor(clone(obj.buffer, seen), obj.byteOffset, length);
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // Map
-- 
2.43.0


From aeed24d74b33978db108839123c1cc31510c9ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:29 +0000
Subject: [PATCH 61/73] fix: structuredClone gave back functions and symbols,
 and empty objects for promises

---
 src/runtime/bindings/web_api.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 2851da4..9059092 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -303,6 +303,12 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
 
             // Use JSON for simple cases, but handle more types
             function clone(obj, seen = new Map()) {
+                // What has no copy
+                if (typeof obj === 'function' || typeof obj === 'symbol' || obj instanceof Promise
+                    || obj instanceof WeakMap || obj instanceof WeakSet || obj instanceof WeakRef) {
+                    throw new DOMException('Value could not be cloned', 'DataCloneError');
+                }
+
                 // Primitives
                 if (obj === null || typeof obj !== 'object') {
                     return obj;
-- 
2.43.0


From 1f184a30ac5680bbb28dd1fe1000d6adcdcedc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:29 +0000
Subject: [PATCH 62/73] fix: structuredClone made errors empty objects, and
 texts in an object lists of letters

---
 src/runtime/bindings/web_api.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 9059092..b62197e 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -333,6 +333,23 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
                     return copy;
                 }
 
+                // Boxed primitives
+                if (obj instanceof Number || obj instanceof String || obj instanceof Boolean || obj instanceof BigInt) {
+                    const copy = Object(obj.valueOf());
+                    seen.set(obj, copy);
+                    return copy;
+                }
+
+                // Error
+                if (obj instanceof Error) {
+                    const constructors = { EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError };
+                    const ErrorConstructor = Object.hasOwn(constructors, obj.name) ? constructors[obj.name] : Error;
+                    const copy = new ErrorConstructor(obj.message);
+                    copy.stack = obj.stack;
+                    seen.set(obj, copy);
+                    return copy;
+                }
+
                 // ArrayBuffer
                 if (obj instanceof ArrayBuffer) {
                     const copy = new ArrayBuffer(obj.byteLength);
-- 
2.43.0


From 233f9aff75bc4b9fa3552584a2e258bc5fb498b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:29 +0000
Subject: [PATCH 63/73] fix: structuredClone filled the gaps of an array and
 lost a property named __proto__

---
 src/runtime/bindings/web_api.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index b62197e..654c562 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -390,9 +390,10 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
                 // Array
                 if (Array.isArray(obj)) {
                     const copy = [];
+                    copy.length = obj.length;
                     seen.set(obj, copy);
-                    for (let i = 0; i < obj.length; i++) {
-                        copy[i] = clone(obj[i], seen);
+                    for (const key of Object.keys(obj)) {
+                        copy[key] = clone(obj[key], seen);
                     }
                     return copy;
                 }
@@ -401,7 +402,9 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
                 const copy = {};
                 seen.set(obj, copy);
                 for (const key of Object.keys(obj)) {
-                    copy[key] = clone(obj[key], seen);
+                    Object.defineProperty(copy, key, {
+                        value: clone(obj[key], seen), writable: true, enumerable: true, configurable: true
+                    });
                 }
                 return copy;
             }
-- 
2.43.0


From b66e3341575e4f12c27e3e92b1a6b364cb609d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 64/73] fix: a Blob changed with the buffers it was made of and
 read into; one of a view gave away the whole buffer

---
 src/runtime/bindings/web_api.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 654c562..97df06e 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -58,9 +58,9 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
                     if (part instanceof Blob) {
                         this._parts.push(...part._parts);
                     } else if (part instanceof ArrayBuffer) {
-                        this._parts.push(new Uint8Array(part));
+                        this._parts.push(new Uint8Array(part.slice(0)));
                     } else if (ArrayBuffer.isView(part)) {
-                        this._parts.push(new Uint8Array(part.buffer, part.byteOffset, part.byteLength));
+                        this._parts.push(new Uint8Array(part.buffer, part.byteOffset, part.byteLength).slice());
                     } else {
                         this._parts.push(new TextEncoder().encode(String(part)));
                     }
@@ -78,7 +78,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             }
 
             async arrayBuffer() {
-                return this._getBytes().buffer;
+                return this._getBytes().slice().buffer;
             }
 
             async text() {
@@ -86,7 +86,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             }
 
             stream() {
-                const bytes = this._getBytes();
+                const bytes = this._getBytes().slice();
                 return new ReadableStream({
                     start(controller) {
                         controller.enqueue(bytes);
-- 
2.43.0


From 8a184ced446c92dd5ce21e585ef62fb55b754faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 65/73] fix: a File last modified at 0 was last modified now

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 97df06e..46c6f33 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -114,7 +114,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             constructor(fileBits, fileName, options = {}) {
                 super(fileBits, options);
                 this.name = fileName;
-                this.lastModified = options.lastModified || Date.now();
+                this.lastModified = options.lastModified ?? Date.now();
             }
         };
     "#;
-- 
2.43.0


From ebcdb57b466939f17c6eef4b1766bf5adaffc498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 66/73] fix: btoa lost, and atob refused, what is not given as
 a string

---
 src/runtime/bindings/web_api.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 46c6f33..b9a8a2a 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -434,6 +434,7 @@ pub fn setup_base64(scope: &mut v8::PinScope) {
         // btoa: binary string → base64
         // Each char is treated as a single byte (charCodeAt), NOT UTF-8.
         globalThis.btoa = function(str) {
+            str = String(str);
             const len = str.length;
             let result = '';
 
@@ -465,7 +466,7 @@ pub fn setup_base64(scope: &mut v8::PinScope) {
         // atob: base64 → binary string
         // Returns a string where each char is one byte (latin-1), NOT UTF-8.
         globalThis.atob = function(base64) {
-            base64 = base64.replace(/[\s=]/g, '');
+            base64 = String(base64).replace(/[\s=]/g, '');
             const len = base64.length;
             const outLen = (len * 3) >>> 2;
             let result = '';
-- 
2.43.0


From 57960ad7953472a3b35ef677982a6aed5ea23763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 67/73] fix: atob made bytes of what is not base64

---
 src/runtime/bindings/web_api.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index b9a8a2a..f9d6c96 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -466,7 +466,13 @@ pub fn setup_base64(scope: &mut v8::PinScope) {
         // atob: base64 → binary string
         // Returns a string where each char is one byte (latin-1), NOT UTF-8.
         globalThis.atob = function(base64) {
-            base64 = String(base64).replace(/[\s=]/g, '');
+            base64 = String(base64).replace(/[\t\n\f\r ]/g, '');
+            if (base64.length % 4 === 0) {
+                base64 = base64.replace(/==?$/, '');
+            }
+            if (base64.length % 4 === 1 || /[^A-Za-z0-9+\/_-]/.test(base64)) {
+                throw new DOMException('Invalid character', 'InvalidCharacterError');
+            }
             const len = base64.length;
             const outLen = (len * 3) >>> 2;
             let result = '';
-- 
2.43.0


From d3429b511c06ddf69416b393bf299a128a76a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 68/73] fix: a body streamed in texts or buffers was read as
 zeros, or as nothing

---
 src/runtime/bindings/web_api.rs | 64 +++++++++++----------------------
 1 file changed, 21 insertions(+), 43 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index f9d6c96..b306fdb 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -969,13 +969,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     reader.releaseLock();
                 }
 
-                const totalLength = chunks.reduce((sum, chunk) => sum + chunk.length, 0);
-                const result = new Uint8Array(totalLength);
-                let offset = 0;
-                for (const chunk of chunks) {
-                    result.set(chunk, offset);
-                    offset += chunk.length;
-                }
+                const result = __joinChunks(chunks);
 
                 const decoder = new TextDecoder();
                 return decoder.decode(result);
@@ -1098,15 +1092,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     reader.releaseLock();
                 }
 
-                const totalLength = chunks.reduce((sum, chunk) => sum + chunk.length, 0);
-                const result = new Uint8Array(totalLength);
-                let offset = 0;
-                for (const chunk of chunks) {
-                    result.set(chunk, offset);
-                    offset += chunk.length;
-                }
-
-                return result.buffer;
+                return __joinChunks(chunks).buffer;
             }
 
             clone() {
@@ -1210,13 +1196,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     reader.releaseLock();
                 }
 
-                const totalLength = chunks.reduce((sum, chunk) => sum + chunk.length, 0);
-                const result = new Uint8Array(totalLength);
-                let offset = 0;
-                for (const chunk of chunks) {
-                    result.set(chunk, offset);
-                    offset += chunk.length;
-                }
+                const result = __joinChunks(chunks);
 
                 const decoder = new TextDecoder();
                 return decoder.decode(result);
@@ -1245,15 +1225,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     reader.releaseLock();
                 }
 
-                const totalLength = chunks.reduce((sum, chunk) => sum + chunk.length, 0);
-                const result = new Uint8Array(totalLength);
-                let offset = 0;
-                for (const chunk of chunks) {
-                    result.set(chunk, offset);
-                    offset += chunk.length;
-                }
-
-                return result.buffer;
+                return __joinChunks(chunks).buffer;
             }
 
             async json() {
@@ -1547,6 +1519,22 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
             return { bytes: new TextEncoder().encode(String(body)), type: null };
         };
 
+        // The bytes of the chunks of a body, which may be of any form (as in streamed responses)
+        globalThis.__joinChunks = function(chunks) {
+            const parts = chunks
+                .filter(chunk => chunk !== null && chunk !== undefined)
+                .map(chunk => __extractBody(chunk).bytes);
+            const result = new Uint8Array(parts.reduce((sum, part) => sum + part.length, 0));
+            let offset = 0;
+
+            for (const part of parts) {
+                result.set(part, offset);
+                offset += part.length;
+            }
+
+            return result;
+        };
+
         // Buffer a ReadableStream body to Uint8Array
         globalThis.__bufferBody = async function(body) {
             if (!body || !(body instanceof ReadableStream)) {
@@ -1562,17 +1550,7 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 chunks.push(value);
             }
 
-            // Concatenate all chunks
-            const totalLength = chunks.reduce((sum, chunk) => sum + chunk.length, 0);
-            const result = new Uint8Array(totalLength);
-            let offset = 0;
-
-            for (const chunk of chunks) {
-                result.set(chunk, offset);
-                offset += chunk.length;
-            }
-
-            return result;
+            return __joinChunks(chunks);
         };
 
         // Generic helper for binding calls with Promise wrapper
-- 
2.43.0


From 716e71cf46b83d581f2e7c7976c2e94bbdb4d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 69/73] fix: a body read by a reader, a fetch or another
 message was read again as empty

---
 src/runtime/bindings/web_api.rs | 44 ++++++++++++++++++++-------------
 src/runtime/streams.rs          |  5 ++++
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index b306fdb..a3777b8 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -897,10 +897,10 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     // Body handling for clone
                     if (init.body !== undefined) {
                         this._initBody(init.body);
-                    } else if (input.body && !input.bodyUsed) {
-                        this._initBody(input.body);
+                    } else if (input.bodyUsed || input.body?.locked) {
+                        throw new TypeError('Body has already been consumed');
                     } else {
-                        this.body = null;
+                        this._initBody(input.body);
                     }
                 } else {
                     // URL string
@@ -916,7 +916,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     }
                 }
 
-                this.bodyUsed = false;
+                this._consumed = false;
 
                 // Additional properties (simplified)
                 this.mode = init.mode || 'cors';
@@ -927,6 +927,11 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                 this.integrity = init.integrity || '';
             }
 
+            // Whether anything was read of the body, in whatever way
+            get bodyUsed() {
+                return this._consumed || !!this.body?._disturbed;
+            }
+
             _initBody(body) {
                 if (body instanceof ReadableStream) {
                     this.body = body;
@@ -947,10 +952,10 @@ pub fn setup_request(scope: &mut v8::PinScope) {
             }
 
             async text() {
-                if (this.bodyUsed) {
+                if (this.bodyUsed || this.body?.locked) {
                     throw new TypeError('Body has already been consumed');
                 }
-                this.bodyUsed = true;
+                this._consumed = true;
 
                 if (!this.body) {
                     return '';
@@ -1070,10 +1075,10 @@ pub fn setup_request(scope: &mut v8::PinScope) {
             }
 
             async arrayBuffer() {
-                if (this.bodyUsed) {
+                if (this.bodyUsed || this.body?.locked) {
                     throw new TypeError('Body has already been consumed');
                 }
-                this.bodyUsed = true;
+                this._consumed = true;
 
                 if (!this.body) {
                     return new ArrayBuffer(0);
@@ -1135,7 +1140,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 this.status = init.status || 200;
                 this.statusText = init.statusText || '';
                 this.ok = this.status >= 200 && this.status < 300;
-                this.bodyUsed = false;
+                this._consumed = false;
                 this._nativeStreamId = null;
 
                 // Standard Response properties
@@ -1173,11 +1178,16 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
             }
 
+            // Whether anything was read of the body, in whatever way
+            get bodyUsed() {
+                return this._consumed || !!this.body?._disturbed;
+            }
+
             async text() {
-                if (this.bodyUsed) {
+                if (this.bodyUsed || this.body?.locked) {
                     throw new TypeError('Body has already been consumed');
                 }
-                this.bodyUsed = true;
+                this._consumed = true;
 
                 if (!this.body) {
                     return '';
@@ -1203,10 +1213,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
             }
 
             async arrayBuffer() {
-                if (this.bodyUsed) {
+                if (this.bodyUsed || this.body?.locked) {
                     throw new TypeError('Body has already been consumed');
                 }
-                this.bodyUsed = true;
+                this._consumed = true;
 
                 if (!this.body) {
                     return new ArrayBuffer(0);
@@ -1584,13 +1594,13 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 url = input.url;
                 method = options.method || input.method || 'GET';
                 headers = options.headers !== undefined ? options.headers : input.headers;
-                // Body: options.body overrides, otherwise use request body if not consumed
+                // Body: options.body overrides, otherwise the request's own (which nobody has read)
                 if (options.body !== undefined) {
                     body = options.body;
-                } else if (input.body && !input.bodyUsed) {
-                    body = input.body;
+                } else if (input.bodyUsed || input.body?.locked) {
+                    throw new TypeError('Body has already been consumed');
                 } else {
-                    body = null;
+                    body = input.body;
                 }
             } else if (input instanceof URL) {
                 // URL object - convert to string
diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 2b76511..6855b4f 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -11,6 +11,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._reader = null;
                 this._state = 'readable'; // 'readable', 'closed', 'errored'
                 this._storedError = null;
+                this._disturbed = false; // Read from, or cancelled
 
                 // Create controller
                 const controller = new ReadableStreamDefaultController(this);
@@ -35,6 +36,8 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
             }
 
             cancel(reason) {
+                this._disturbed = true;
+
                 if (this._state === 'closed') {
                     return Promise.resolve();
                 }
@@ -315,6 +318,8 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     return Promise.reject(new TypeError('Reader is released'));
                 }
 
+                this._stream._disturbed = true;
+
                 if (this._stream._state === 'errored') {
                     return Promise.reject(this._stream._storedError);
                 }
-- 
2.43.0


From d1c7a097181bc18de98d6bb6ef27aa84cc88ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 70/73] fix: the branches of a body shared chunks that are
 buffers or views

---
 src/runtime/streams.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 6855b4f..e863518 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -100,6 +100,15 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     return new Uint8Array(value);
                 }
 
+                if (value instanceof ArrayBuffer) {
+                    return value.slice(0);
+                }
+
+                if (ArrayBuffer.isView(value)) {
+                    const { buffer, byteOffset, byteLength } = value;
+                    return new value.constructor(buffer.slice(byteOffset, byteOffset + byteLength));
+                }
+
                 return value;
             }
 
-- 
2.43.0


From 7a8e04aa1daccfccedfbc894042b66ccbd18583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:43 +0000
Subject: [PATCH 71/73] fix: forms lost entries by their names, broke contents
 that look like a boundary, and took one cut off for whole

---
 src/runtime/bindings/web_api.rs | 272 +++++++++++---------------------
 1 file changed, 93 insertions(+), 179 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index a3777b8..745f551 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -986,92 +986,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
             }
 
             async formData() {
-                const contentType = this.headers.get('content-type') || '';
-                const formData = new FormData();
-
-                if (contentType.includes('application/x-www-form-urlencoded')) {
-                    const text = await this.text();
-                    const params = new URLSearchParams(text);
-                    for (const [key, value] of params) {
-                        formData.append(key, value);
-                    }
-                } else if (contentType.includes('multipart/form-data')) {
-                    const boundaryMatch = contentType.match(/boundary=(?:"([^"]+)"|([^;\s]+))/);
-                    if (!boundaryMatch) {
-                        throw new TypeError('Missing boundary in multipart/form-data');
-                    }
-                    const boundary = '--' + (boundaryMatch[1] || boundaryMatch[2]);
-                    const boundaryBytes = new TextEncoder().encode(boundary);
-                    const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
-                    const crlf = new Uint8Array([13, 10]); // \r\n
-
-                    const buffer = await this.arrayBuffer();
-                    const data = new Uint8Array(buffer);
-
-                    // Find byte pattern in array
-                    const findPattern = (arr, pattern, start = 0) => {
-                        outer: for (let i = start; i <= arr.length - pattern.length; i++) {
-                            for (let j = 0; j < pattern.length; j++) {
-                                if (arr[i + j] !== pattern[j]) continue outer;
-                            }
-                            return i;
-                        }
-                        return -1;
-                    };
-
-                    let pos = findPattern(data, boundaryBytes);
-                    while (pos !== -1) {
-                        pos += boundaryBytes.length;
-
-                        // Check for final boundary (--)
-                        if (data[pos] === 45 && data[pos + 1] === 45) break;
-
-                        // Skip CRLF after boundary
-                        if (data[pos] === 13 && data[pos + 1] === 10) pos += 2;
-
-                        // Find header end
-                        const headerEnd = findPattern(data, crlfcrlf, pos);
-                        if (headerEnd === -1) break;
-
-                        // Parse headers as text
-                        const headerBytes = data.slice(pos, headerEnd);
-                        const headerText = new TextDecoder().decode(headerBytes);
-
-                        // Find next boundary for body end
-                        const nextBoundary = findPattern(data, boundaryBytes, headerEnd + 4);
-                        const bodyEnd = nextBoundary !== -1 ? nextBoundary - 2 : data.length; // -2 for CRLF before boundary
-
-                        // Extract body as bytes
-                        const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
-
-                        const nameMatch = headerText.match(/name="([^"]+)"/);
-                        if (!nameMatch) {
-                            pos = nextBoundary;
-                            continue;
-                        }
-
-                        const name = nameMatch[1];
-                        const filenameMatch = headerText.match(/filename="([^"]+)"/);
-
-                        if (filenameMatch) {
-                            const filename = filenameMatch[1];
-                            const contentTypeMatch = headerText.match(/Content-Type:\s*([^\r\n]+)/i);
-                            const fileType = contentTypeMatch ? contentTypeMatch[1].trim() : 'application/octet-stream';
-                            const file = new File([bodyBytes], filename, { type: fileType });
-                            formData.append(name, file, filename);
-                        } else {
-                            // Text field - decode as UTF-8
-                            const value = new TextDecoder().decode(bodyBytes);
-                            formData.append(name, value);
-                        }
-
-                        pos = nextBoundary;
-                    }
-                } else {
-                    throw new TypeError('Invalid content-type for formData()');
-                }
-
-                return formData;
+                return __readFormData(this);
             }
 
             async arrayBuffer() {
@@ -1244,96 +1159,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
             }
 
             async formData() {
-                const contentType = this.headers.get('content-type') || '';
-                const formData = new FormData();
-
-                if (contentType.includes('application/x-www-form-urlencoded')) {
-                    const text = await this.text();
-                    const params = new URLSearchParams(text);
-
-                    for (const [key, value] of params) {
-                        formData.append(key, value);
-                    }
-                } else if (contentType.includes('multipart/form-data')) {
-                    const boundaryMatch = contentType.match(/boundary=(?:"([^"]+)"|([^;\s]+))/);
-
-                    if (!boundaryMatch) {
-                        throw new TypeError('Missing boundary in multipart/form-data');
-                    }
-
-                    const boundary = '--' + (boundaryMatch[1] || boundaryMatch[2]);
-                    const boundaryBytes = new TextEncoder().encode(boundary);
-                    const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
-
-                    const buffer = await this.arrayBuffer();
-                    const data = new Uint8Array(buffer);
-
-                    // Find byte pattern in array
-                    const findPattern = (arr, pattern, start = 0) => {
-                        outer: for (let i = start; i <= arr.length - pattern.length; i++) {
-                            for (let j = 0; j < pattern.length; j++) {
-                                if (arr[i + j] !== pattern[j]) continue outer;
-                            }
-                            return i;
-                        }
-                        return -1;
-                    };
-
-                    let pos = findPattern(data, boundaryBytes);
-
-                    while (pos !== -1) {
-                        pos += boundaryBytes.length;
-
-                        // Check for final boundary (--)
-                        if (data[pos] === 45 && data[pos + 1] === 45) break;
-
-                        // Skip CRLF after boundary
-                        if (data[pos] === 13 && data[pos + 1] === 10) pos += 2;
-
-                        // Find header end
-                        const headerEnd = findPattern(data, crlfcrlf, pos);
-                        if (headerEnd === -1) break;
-
-                        // Parse headers as text
-                        const headerBytes = data.slice(pos, headerEnd);
-                        const headerText = new TextDecoder().decode(headerBytes);
-
-                        // Find next boundary for body end
-                        const nextBoundary = findPattern(data, boundaryBytes, headerEnd + 4);
-                        const bodyEnd = nextBoundary !== -1 ? nextBoundary - 2 : data.length; // -2 for CRLF before boundary
-
-                        // Extract body as bytes
-                        const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
-
-                        const nameMatch = headerText.match(/name="([^"]+)"/);
-
-                        if (!nameMatch) {
-                            pos = nextBoundary;
-                            continue;
-                        }
-
-                        const name = nameMatch[1];
-                        const filenameMatch = headerText.match(/filename="([^"]+)"/);
-
-                        if (filenameMatch) {
-                            const filename = filenameMatch[1];
-                            const contentTypeMatch = headerText.match(/Content-Type:\s*([^\r\n]+)/i);
-                            const fileType = contentTypeMatch ? contentTypeMatch[1].trim() : 'application/octet-stream';
-                            const file = new File([bodyBytes], filename, { type: fileType });
-                            formData.append(name, file, filename);
-                        } else {
-                            // Text field - decode as UTF-8
-                            const value = new TextDecoder().decode(bodyBytes);
-                            formData.append(name, value);
-                        }
-
-                        pos = nextBoundary;
-                    }
-                } else {
-                    throw new TypeError('Invalid content-type for formData()');
-                }
-
-                return formData;
+                return __readFormData(this);
             }
 
             _getRawBody() {
@@ -1457,14 +1283,15 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
         globalThis.__serializeFormData = function(formData) {
             const boundary = '----OpenWorkersBoundary' + Math.random().toString(36).slice(2);
             const CRLF = '\r\n';
+            const escape = text => String(text).replace(/\r/g, '%0D').replace(/\n/g, '%0A').replace(/"/g, '%22');
             const parts = [];
 
             for (const [name, value, filename] of formData._entries) {
                 let part = '--' + boundary + CRLF;
 
                 if (value instanceof Blob) {
-                    const fname = filename || (value.name ? value.name : 'blob');
-                    part += 'Content-Disposition: form-data; name="' + name + '"; filename="' + fname + '"' + CRLF;
+                    const fname = filename ?? value.name ?? 'blob';
+                    part += 'Content-Disposition: form-data; name="' + escape(name) + '"; filename="' + escape(fname) + '"' + CRLF;
                     part += 'Content-Type: ' + (value.type || 'application/octet-stream') + CRLF + CRLF;
 
                     const headerBytes = new TextEncoder().encode(part);
@@ -1475,7 +1302,7 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                     parts.push(blobBytes);
                     parts.push(crlfBytes);
                 } else {
-                    part += 'Content-Disposition: form-data; name="' + name + '"' + CRLF + CRLF;
+                    part += 'Content-Disposition: form-data; name="' + escape(name) + '"' + CRLF + CRLF;
                     part += String(value) + CRLF;
                     parts.push(new TextEncoder().encode(part));
                 }
@@ -1563,6 +1390,93 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
             return __joinChunks(chunks);
         };
 
+        // Read the body of a message as a form
+        globalThis.__readFormData = async function(message) {
+            const contentType = message.headers.get('content-type') || '';
+            const formData = new FormData();
+
+            if (/application\/x-www-form-urlencoded/i.test(contentType)) {
+                for (const [key, value] of new URLSearchParams(await message.text())) {
+                    formData.append(key, value);
+                }
+                return formData;
+            }
+
+            if (!/multipart\/form-data/i.test(contentType)) {
+                throw new TypeError('Invalid content-type for formData()');
+            }
+
+            const boundaryMatch = contentType.match(/boundary=(?:"([^"]+)"|([^;\s]+))/i);
+            if (!boundaryMatch) {
+                throw new TypeError('Missing boundary in multipart/form-data');
+            }
+
+            const malformed = () => new TypeError('Malformed multipart/form-data');
+            const decode = bytes => new TextDecoder('utf-8', { ignoreBOM: true }).decode(bytes);
+            const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
+            const delimiter = new TextEncoder().encode('\r\n--' + (boundaryMatch[1] || boundaryMatch[2]));
+
+            // Every delimiter is at the start of a line, the first one too
+            const data = __joinChunks(['\r\n', await message.arrayBuffer()]);
+
+            // Find byte pattern in the body
+            const findPattern = (pattern, start) => {
+                outer: for (let i = start; i <= data.length - pattern.length; i++) {
+                    for (let j = 0; j < pattern.length; j++) {
+                        if (data[i + j] !== pattern[j]) continue outer;
+                    }
+                    return i;
+                }
+                return -1;
+            };
+
+            // Find the next delimiter that has its line to itself, or is the final one (--)
+            const findDelimiter = (start) => {
+                for (let at = findPattern(delimiter, start); at !== -1; at = findPattern(delimiter, at + 1)) {
+                    let end = at + delimiter.length;
+                    if (data[end] === 45 && data[end + 1] === 45) return { at, final: true };
+                    while (data[end] === 32 || data[end] === 9) end++;
+                    if (data[end] === 13 && data[end + 1] === 10) return { at, end, final: false };
+                }
+                throw malformed();
+            };
+
+            let current = findDelimiter(0);
+            while (!current.final) {
+                const headerEnd = findPattern(crlfcrlf, current.end);
+                if (headerEnd === -1) throw malformed();
+                const next = findDelimiter(headerEnd + 4);
+
+                const headers = {};
+                for (const line of decode(data.subarray(current.end, headerEnd)).split('\r\n')) {
+                    const colon = line.indexOf(':');
+                    if (colon > 0) headers[line.slice(0, colon).trim().toLowerCase()] = line.slice(colon + 1).trim();
+                }
+
+                const params = {};
+                const paramPattern = /;\s*([^\s=;]+)\s*=\s*(?:"([^"]*)"|([^;\s]*))/g;
+                for (const [, key, quoted, plain] of (headers['content-disposition'] || '').matchAll(paramPattern)) {
+                    params[key.toLowerCase()] = (quoted ?? plain)
+                        .replace(/%0D/gi, '\r').replace(/%0A/gi, '\n').replace(/%22/g, '"');
+                }
+
+                if (params.name !== undefined) {
+                    const bytes = data.slice(headerEnd + 4, next.at);
+                    if (params.filename !== undefined) {
+                        const type = headers['content-type'] || 'application/octet-stream';
+                        formData.append(params.name, new File([bytes], params.filename, { type }));
+                    } else {
+                        // Text field - decode as UTF-8
+                        formData.append(params.name, decode(bytes));
+                    }
+                }
+
+                current = next;
+            }
+
+            return formData;
+        };
+
         // Generic helper for binding calls with Promise wrapper
         // nativeFn: the native binding function to call (bindingName, method, params, resolve, reject)
         // Returns: Promise that resolves with data or rejects with error
-- 
2.43.0


From a7d87a334b39b8bf768d20aa7b3cefece03a5246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 72/73] fix: what was left of a body that was read went out as
 the whole body

---
 src/runtime/bindings/web_api.rs | 5 +++++
 src/worker.rs                   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 745f551..d997559 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1378,6 +1378,11 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 return body;
             }
 
+            // What is left of a body is not the body
+            if (body._disturbed || body.locked) {
+                throw new TypeError('Body has already been consumed');
+            }
+
             const reader = body.getReader();
             const chunks = [];
 
diff --git a/src/worker.rs b/src/worker.rs
index e3c60a8..dc7179c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1386,6 +1386,11 @@ pub(crate) fn setup_event_listener(
                 return response;
             }
 
+            // What is left of a body is not the body
+            if (response.bodyUsed || response.body.locked) {
+                throw new TypeError('Body has already been consumed');
+            }
+
             // If it's a native stream (fetch forward), just mark it
             // Native streams are managed (and waited for) by Rust, no need to track here
             if (response.body._nativeStreamId !== undefined) {
-- 
2.43.0


From 27f9c99bfa2c2bf55dbc77216c63c8673db6d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:52 +0000
Subject: [PATCH 73/73] fix: a URL resolves relative references, follows the
 parts assigned, and refuses what is none

---
 src/runtime/bindings/web_api.rs   | 276 +++++++++++++++++++++++-------
 src/runtime/bindings/websocket.rs |   7 +-
 2 files changed, 221 insertions(+), 62 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index d997559..4f6aa9b 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -553,10 +553,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             _update() {
                 if (this._url) {
                     const qs = this.toString();
-                    this._url.search = qs ? '?' + qs : '';
-                    const userinfo = /^[^:]*:\/\/([^@\/?#]*@)/.exec(this._url.href);
-                    this._url.href = (userinfo ? this._url.protocol + '//' + userinfo[1] + this._url.host : this._url.origin)
-                        + this._url.pathname + this._url.search + this._url.hash;
+                    this._url._searchChanged(qs ? '?' + qs : '');
                 }
             }
 
@@ -660,73 +657,230 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
 pub fn setup_url(scope: &mut v8::PinScope) {
     let code = r#"
         globalThis.URL = class URL {
+            #protocol;
+            #userinfo; // As it stands in the text, without the @
+            #hostname; // null where there is no authority
+            #port;
+            #pathname;
+            #search;
+            #hash;
+
             constructor(url, base) {
-                // Handle URL object input - convert to string
-                if (url instanceof URL) {
-                    url = url.href;
+                const parts = URL.#parse(String(url), base ? URL.#parse(String(base)) : null);
+                this.searchParams = new URLSearchParams();
+                this.#take(parts);
+
+                // Link searchParams back to this URL so mutations update it
+                this.searchParams._url = this;
+            }
+
+            // The parts of a text, or of what it means relative to a base
+            static #parse(text, base) {
+                // scheme:[//authority][path][?query][#hash]
+                const [, scheme, authority, path, query, hash] =
+                    text.match(/^(?:([a-z][a-z0-9+\-.]*):)?(?:\/\/([^\/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$/is);
+
+                const parts = { protocol: scheme ? scheme.toLowerCase() + ':' : base?.protocol };
+                if (!parts.protocol || (!scheme && base.hostname === null)) {
+                    throw new TypeError('Invalid URL: ' + text);
+                }
+
+                parts.search = query ? '?' + query : '';
+                parts.hash = hash ? '#' + hash : '';
+
+                if (authority !== undefined) {
+                    // [userinfo@]host[:port]
+                    const match = authority.match(/^(?:(.*)@)?(\[[^\]]*\]|[^:\[\]]*)(?::(\d*))?$/s);
+                    if (!match) {
+                        throw new TypeError('Invalid URL: ' + text);
+                    }
+                    parts.userinfo = match[1] || '';
+                    parts.hostname = match[2];
+                    parts.port = match[3] || '';
+                    parts.pathname = URL.#path(path);
+                } else if (scheme) {
+                    Object.assign(parts, { userinfo: '', hostname: null, port: '', pathname: path });
                 } else {
-                    url = String(url);
-                }
-
-                if (base) {
-                    // Handle relative URLs
-                    const baseUrl = typeof base === 'string' ? base : base.href;
-
-                    if (url.startsWith('/')) {
-                        // Absolute path - use origin from base
-                        const match = baseUrl.match(/^([a-z][a-z0-9+\-.]*:\/\/[^\/]+)/i);
-                        url = match ? match[1] + url : url;
-                    } else if (!url.match(/^[a-z][a-z0-9+\-.]*:\/\//i)) {
-                        // Relative path - append to base directory
-                        const hasPath = baseUrl.match(/^[a-z][a-z0-9+\-.]*:\/\/[^\/]+\//i);
-                        if (hasPath) {
-                            url = baseUrl.replace(/\/[^\/]*$/, '/') + url;
-                        } else {
-                            url = baseUrl + '/' + url;
-                        }
+                    const { userinfo, hostname, port } = base;
+                    Object.assign(parts, { userinfo, hostname, port });
+                    if (path === '') {
+                        parts.pathname = base.pathname;
+                        if (query === undefined) parts.search = base.search;
+                    } else {
+                        parts.pathname = URL.#path(path.startsWith('/') ? path : base.pathname.replace(/[^\/]*$/, '') + path);
                     }
                 }
 
-                this.href = url;
-
-                // scheme://[userinfo@]host[:port][/path][?query][#hash]
-                const match = url.match(/^([a-z][a-z0-9+\-.]*):\/\/(?:([^@\/\?#]*)@)?([^:\/?#]*)(?::(\d+))?(\/[^\?#]*)?(\?[^#]*)?(#.*)?$/i);
-
-                if (match) {
-                    this.protocol = match[1] + ':';
-                    const userinfo = match[2] || '';
-                    const colonIdx = userinfo.indexOf(':');
-                    this.username = decodeURIComponent(colonIdx >= 0 ? userinfo.slice(0, colonIdx) : userinfo);
-                    this.password = decodeURIComponent(colonIdx >= 0 ? userinfo.slice(colonIdx + 1) : '');
-                    this.hostname = match[3];
-                    this.port = match[4] || '';
-                    this.host = this.hostname + (this.port ? ':' + this.port : '');
-                    this.pathname = match[5] || '/';
-                    this.search = match[6] || '';
-                    this.hash = match[7] || '';
-                    this.origin = this.protocol + '//' + this.host;
-                    this.searchParams = new URLSearchParams(this.search);
-                } else {
-                    this.protocol = '';
-                    this.username = '';
-                    this.password = '';
-                    this.host = '';
-                    this.hostname = '';
-                    this.port = '';
-                    this.pathname = url;
-                    this.search = '';
-                    this.hash = '';
-                    this.origin = '';
-                    this.searchParams = new URLSearchParams();
-                }
-
-                // Link searchParams back to this URL so mutations update href
-                this.searchParams._url = this;
+                return URL.#normal(parts);
+            }
+
+            // A path with its . and .. segments resolved
+            static #path(path) {
+                const segments = path.replace(/^\//, '').split('/');
+                const resolved = [];
+                segments.forEach((segment, i) => {
+                    const last = i === segments.length - 1;
+                    if (segment === '..') resolved.pop();
+                    if (segment !== '..' && segment !== '.') resolved.push(segment);
+                    else if (last) resolved.push('');
+                });
+                return '/' + resolved.join('/');
+            }
+
+            static #normal(parts) {
+                const ports = { 'http:': '80', 'https:': '443', 'ws:': '80', 'wss:': '443' };
+                if (parts.protocol in ports) {
+                    if (!parts.hostname) {
+                        throw new TypeError('Invalid URL: no host');
+                    }
+                    parts.hostname = parts.hostname.toLowerCase();
+                    if (parts.port === ports[parts.protocol]) parts.port = '';
+                }
+                return parts;
+            }
+
+            #parts() {
+                return {
+                    protocol: this.#protocol, userinfo: this.#userinfo, hostname: this.#hostname, port: this.#port,
+                    pathname: this.#pathname, search: this.#search, hash: this.#hash
+                };
+            }
+
+            #take(parts) {
+                this.#protocol = parts.protocol;
+                this.#userinfo = parts.userinfo;
+                this.#hostname = parts.hostname;
+                this.#port = parts.port;
+                this.#pathname = parts.pathname;
+                this.#hash = parts.hash;
+                if (this.#search !== parts.search) {
+                    this.#search = parts.search;
+                    this.searchParams._entries = new URLSearchParams(parts.search)._entries;
+                }
+            }
+
+            #change(changed) {
+                this.#take(URL.#normal({ ...this.#parts(), ...changed }));
+            }
+
+            // The query was changed through searchParams
+            _searchChanged(search) {
+                this.#search = search;
+            }
+
+            get href() {
+                const authority = this.#hostname === null ? '' : '//' + (this.#userinfo ? this.#userinfo + '@' : '') + this.host;
+                return this.#protocol + authority + this.#pathname + this.#search + this.#hash;
+            }
+
+            set href(value) {
+                this.#take(URL.#parse(String(value), null));
+            }
+
+            get origin() {
+                return this.#hostname === null ? 'null' : this.#protocol + '//' + this.host;
+            }
+
+            get protocol() {
+                return this.#protocol;
+            }
+
+            set protocol(value) {
+                const match = /^([a-z][a-z0-9+\-.]*)(?::|$)/i.exec(value);
+                if (match && this.#hostname !== null) this.#change({ protocol: match[1].toLowerCase() + ':' });
+            }
+
+            static #decode(text) {
+                try {
+                    return decodeURIComponent(text);
+                } catch {
+                    return text;
+                }
+            }
+
+            #credentials(username, password) {
+                if (this.#hostname) {
+                    this.#change({ userinfo: encodeURIComponent(username) + (password ? ':' + encodeURIComponent(password) : '') });
+                }
+            }
+
+            get username() {
+                return URL.#decode(this.#userinfo.replace(/:.*$/s, ''));
+            }
+
+            set username(value) {
+                this.#credentials(String(value), this.password);
+            }
+
+            get password() {
+                return URL.#decode(this.#userinfo.replace(/^[^:]*:?/, ''));
+            }
+
+            set password(value) {
+                this.#credentials(this.username, String(value));
+            }
+
+            get host() {
+                return (this.#hostname ?? '') + (this.#port ? ':' + this.#port : '');
+            }
+
+            set host(value) {
+                const match = /^(\[[^\]]*\]|[^:\/?#@\[\]]+)(?::(\d+))?/.exec(value);
+                if (match && this.#hostname !== null) this.#change({ hostname: match[1], port: match[2] ?? this.#port });
+            }
+
+            get hostname() {
+                return this.#hostname ?? '';
+            }
+
+            set hostname(value) {
+                const match = /^(\[[^\]]*\]|[^:\/?#@\[\]]+)(?=$|[\/?#])/.exec(value);
+                if (match && this.#hostname !== null) this.#change({ hostname: match[1] });
+            }
+
+            get port() {
+                return this.#port;
+            }
+
+            set port(value) {
+                const match = /^\d+|^$/.exec(value);
+                if (match && this.#hostname) this.#change({ port: match[0] });
+            }
+
+            get pathname() {
+                return this.#pathname;
+            }
+
+            set pathname(value) {
+                if (this.#hostname === null) return;
+                this.#change({ pathname: URL.#path(String(value).replace(/\?/g, '%3F').replace(/#/g, '%23')) });
+            }
+
+            get search() {
+                return this.#search;
+            }
+
+            set search(value) {
+                const query = String(value).replace(/^\?/, '').replace(/#/g, '%23');
+                this.#change({ search: query ? '?' + query : '' });
+            }
+
+            get hash() {
+                return this.#hash;
+            }
+
+            set hash(value) {
+                const hash = String(value).replace(/^#/, '');
+                this.#change({ hash: hash ? '#' + hash : '' });
             }
 
             toString() {
                 return this.href;
             }
+
+            toJSON() {
+                return this.href;
+            }
         };
     "#;
 
diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 7f24924..f0b6330 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -218,7 +218,12 @@ pub fn setup_websocket(
 
                 // Validate per spec: scheme must be ws/wss (http/https are normalized),
                 // and the URL must not contain a fragment. Invalid input throws SyntaxError.
-                const parsed = new URL(String(url));
+                let parsed;
+                try {
+                    parsed = new URL(String(url));
+                } catch {
+                    throw WebSocket.__err('SyntaxError', "Failed to construct 'WebSocket': The URL '" + url + "' is invalid.");
+                }
                 if (parsed.hash) {
                     throw WebSocket.__err('SyntaxError', "Failed to construct 'WebSocket': The URL contains a fragment identifier ('" + parsed.hash + "').");
                 }
-- 
2.43.0

