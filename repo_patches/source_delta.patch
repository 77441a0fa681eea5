From 823daacae3e3f351ccdf0b5d7a0aded315c25164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 01/24] fix: classify algorithms that don't use the resource as
 O(1), instead of Worse than Exponential

When both passes measure a resource usage of 0 (e.g.: algorithms that make no
allocations), '0/0' made every comparison false, falling through to the last class.
---
 src/low_level_analysis/low_level_analysis.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 9b7c051..d112c04 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -10,7 +10,10 @@ use super::{
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
-    if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
+    if u1 == u2 {
+        // no growth at all -- including when the resource isn't used: `0.0 / 0.0` would not be comparable
+        BigOAlgorithmComplexity::O1
+    } else if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::O1
@@ -52,7 +55,10 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
-    if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
+    if u1 == u2 {
+        // no growth at all -- including when the resource isn't used: `0.0 / 0.0` would not be comparable
+        BigOAlgorithmComplexity::O1
+    } else if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
         // sanity check
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
-- 
2.43.0


From 6753e0d9f3836331653ddb1e0b0f30f4ef18643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 02/24] fix: ring-buffer consumers could read slots whose
 contents weren't visible to them yet

The producers publish with 'Release', but consumers read the published tail with
'Relaxed': a data race between the slot write and the slot read.
---
 src/metrics_allocator/ring_buffer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1b1784a..0680070 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -115,7 +115,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     pub fn dequeue(&self) -> Result<Option<&Slot>, RingBufferOverflowError> {
         let mut head = self.head.load(Ordering::Relaxed);
         loop {
-            let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+            // `Acquire` pairs with the producers' `Release`, making the slots up to `published_tail` visible here
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -123,7 +124,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
-            match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
+            match self.head.compare_exchange_weak(head, head + 1, Ordering::AcqRel, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
@@ -159,8 +160,9 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   }
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
-        let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+        // `Acquire` makes sure we don't see a tail older than the one seen by whoever moved `head`, nor unpublished slot data
+        let head = self.head.load(Ordering::Acquire);
+        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
-- 
2.43.0


From a8b26fdbc9fc5b2c68abf79f5a972a2e0cfba6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/24] fix: undefined behaviour when enqueueing elements on
 the ring-buffer

- the first element stored on each slot caused the drop of uninitialized memory
  (crashing for element types with destructors)
- slots were mutated through a shared reference and aliasing references to the
  whole buffer were created by producers & consumers
- on the second lap, a slot could be written to while the producer of the
  previous element was still writing to it
---
 src/metrics_allocator/ring_buffer.rs | 52 +++++++++++++++++-----------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 0680070..8cc7a52 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -5,6 +5,7 @@
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
 use std::sync::atomic::{AtomicU32, Ordering};
+use std::cell::UnsafeCell;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
@@ -22,10 +23,15 @@ pub struct RingBuffer<Slot, const RING_BUFFER_SIZE: usize> {
     reserved_tail: AtomicU32,
     /// once the slot data is set in place, this counter increases to indicate a new element is ready to be consumed
     published_tail: AtomicU32,
-    /// the data
-    buffer: MaybeUninit<[Slot; RING_BUFFER_SIZE]>,
+    /// the data -- slots in the range `0..reserved_tail` (up to the buffer size) are the ones initialized
+    buffer: UnsafeCell<MaybeUninit<[Slot; RING_BUFFER_SIZE]>>,
 }
 
+// SAFETY: slots are only written to by the producer that reserved them and are only shared after being published
+//         -- elements may be enqueued (& replaced) by any thread, requiring `Send`, and are shared with all consumers, requiring `Sync`
+unsafe impl<Slot: Send + Sync, const RING_BUFFER_SIZE: usize> Sync for RingBuffer<Slot, RING_BUFFER_SIZE> {}
+impl<Slot: std::panic::RefUnwindSafe, const RING_BUFFER_SIZE: usize> std::panic::RefUnwindSafe for RingBuffer<Slot, RING_BUFFER_SIZE> {}
+
 impl<Slot, const RING_BUFFER_SIZE: usize>
 Default
 for RingBuffer<Slot, RING_BUFFER_SIZE> {
@@ -40,7 +46,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
         Self {
             reserved_tail: AtomicU32::new(0),
             published_tail: AtomicU32::new(0),
-            buffer: MaybeUninit::uninit(),
+            buffer: UnsafeCell::new(MaybeUninit::uninit()),
         }
     }
 
@@ -57,13 +63,19 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
         // reserve the slot
         let reserved_tail = self.reserved_tail.fetch_add(1, Ordering::Relaxed);
+        // wait for the previous element on that slot (if any) to be published -- otherwise, its producer might still be writing to it
+        while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE as u32 {
+            std::hint::spin_loop();
+        }
         // set the reserved slot contents
-        let mutable_buffer = unsafe {
-            let const_ptr = self.buffer.as_ptr();
-            let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
-            &mut *mut_ptr
-        };
-        mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
+        unsafe {
+            let slot = self.slots_ptr().add(reserved_tail as usize % RING_BUFFER_SIZE);
+            if (reserved_tail as usize) < RING_BUFFER_SIZE {
+                slot.write(element);    // first time this slot is used: there is no previous element there to be dropped
+            } else {
+                *slot = element;
+            }
+        }
 
         // publish the new element for consumption
         loop {
@@ -80,6 +92,12 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
         RING_BUFFER_SIZE
     }
 
+    /// pointer to the first slot -- no references to the whole buffer should ever be created,
+    /// as they would alias with the slots being concurrently written to (and some slots may not be initialized yet)
+    fn slots_ptr(&self) -> *mut Slot {
+        self.buffer.get() as *mut Slot
+    }
+
 }
 
 
@@ -126,12 +144,10 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             }
             match self.head.compare_exchange_weak(head, head + 1, Ordering::AcqRel, Ordering::Relaxed) {
                 Ok(_) => unsafe {
-                    let ptr = self.ring_buffer.buffer.as_ptr();
-                    let array = &*ptr;
                     if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
                         return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
                     }
-                    return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
+                    return Ok(Some(&*self.ring_buffer.slots_ptr().add(head as usize % RING_BUFFER_SIZE)))
                 },
                 Err(reloaded_head) => head = reloaded_head,
             }
@@ -171,17 +187,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
         } else if head_index < published_tail_index {
             unsafe {
-                // sorcery to get back an array from a MaybeUninit using only const stable functions (as of Rust 1.55)
-                let ptr = self.ring_buffer.buffer.as_ptr();
-                let array = &*ptr;
-                Ok([&array[head_index .. published_tail_index], &[]])
+                let ptr = self.ring_buffer.slots_ptr();
+                Ok([std::slice::from_raw_parts(ptr.add(head_index), published_tail_index - head_index), &[]])
             }
         } else {
             unsafe {
-                // sorcery to get back an array from a MaybeUninit using only const stable functions (as of Rust 1.55)
-                let ptr = self.ring_buffer.buffer.as_ptr();
-                let array = &*ptr;
-                Ok([&array[head_index..RING_BUFFER_SIZE], &array[0..published_tail_index]])
+                let ptr = self.ring_buffer.slots_ptr();
+                Ok([std::slice::from_raw_parts(ptr.add(head_index), RING_BUFFER_SIZE - head_index), std::slice::from_raw_parts(ptr, published_tail_index)])
             }
         }
     }
-- 
2.43.0


From a6aa79053758abaf1886e132546a46e349e279cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 04/24] fix: ring-buffer overflows were forgotten by the next
 dequeue

As documented in 'RingBufferOverflowError', an overflowed consumer is no longer
valid: 'any further operations on it will yield this same error' -- but the
failed dequeue moved 'head' on, allowing later ones to silently skip elements.
Also, neither operation should report an overflow due to an outdated 'head'.
---
 src/metrics_allocator/ring_buffer.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 8cc7a52..5b3bc73 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -142,10 +142,24 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
+            // when overflowed, `head` must stay where it is (unless outdated by another thread): this consumer is no longer valid
+            let overflowed = || self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32;
+            let overflow_error = || RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) };
+            if overflowed() {
+                match self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Relaxed) {
+                    Ok(_) => return Err(overflow_error()),
+                    Err(reloaded_head) => {
+                        head = reloaded_head;
+                        continue;
+                    },
+                }
+            }
             match self.head.compare_exchange_weak(head, head + 1, Ordering::AcqRel, Ordering::Relaxed) {
                 Ok(_) => unsafe {
-                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
-                        return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
+                    if overflowed() {
+                        // overflowed while dequeueing: give the element back
+                        self.head.fetch_min(head, Ordering::AcqRel);
+                        return Err(overflow_error());
                     }
                     return Ok(Some(&*self.ring_buffer.slots_ptr().add(head as usize % RING_BUFFER_SIZE)))
                 },
@@ -184,6 +198,9 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         if head == published_tail {
             Ok([&[],&[]])
         } else if published_tail - head > RING_BUFFER_SIZE as u32 {
+            if self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Relaxed).is_err() {
+                return self.peek_all();     // another thread has just dequeued from this consumer: our `head` is outdated
+            }
             Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
         } else if head_index < published_tail_index {
             unsafe {
-- 
2.43.0


From defdf214ac4044a71237b88997006d5100ba8ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 05/24] fix: requests refused by the system were accounted as
 used memory by the metrics allocator

Failed allocations (e.g.: 'Vec::try_reserve()' of too many elements) inflated the
current & max used memory for ever.
---
 src/metrics_allocator/metrics_allocator.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index b18cbd8..0c5cbdf 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -267,20 +267,29 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
 /// the global allocator
 unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_, RING_BUFFER_SIZE> {
     unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_metrics(&layout);
-        self.system_allocator.alloc(layout)
+        let ptr = self.system_allocator.alloc(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
         self.compute_dealloc_metrics(&layout);
         self.system_allocator.dealloc(ptr, layout)
     }
     unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_zeroed_metrics(&layout);
-        self.system_allocator.alloc_zeroed(layout)
+        let ptr = self.system_allocator.alloc_zeroed(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_zeroed_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-        self.compute_realloc_metrics(&layout, new_size);
-        self.system_allocator.realloc(ptr, layout, new_size)
+        let new_ptr = self.system_allocator.realloc(ptr, layout, new_size);
+        if !new_ptr.is_null() {
+            self.compute_realloc_metrics(&layout, new_size);
+        }
+        new_ptr
     }
 }
 
-- 
2.43.0


From f12bd64f9a00c92e3bf25fa91fc8f5e634839bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 06/24] fix: save points taken while other threads use the
 allocator yielded impossible measurements

'current_used_memory' was loaded several times & updates done by other threads to
the (min,max) counters were overwritten -- yielding 'max' values lower than the
used memory, overflowing the subtractions done by the space analysis. Likewise, a
concurrent save point could hide from 'delta_statistics()' the peak reached so far.
---
 src/metrics_allocator/metrics_allocator.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 0c5cbdf..be55bd8 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -1,6 +1,7 @@
 //! See [super]
 
 use std::fmt::{Formatter, Display, Debug};
+use std::sync::Mutex;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::alloc::{System, GlobalAlloc, Layout};
 
@@ -105,6 +106,8 @@ pub struct MetricsAllocator<'a, const RING_BUFFER_SIZE: usize> {
     system_allocator:        &'a System,
     statistics:              MetricsAllocatorStatistics<AtomicUsize>,
     used_memory_ring_buffer: RingBuffer<SavePointRingBufferSlot<usize>, RING_BUFFER_SIZE>,
+    /// prevents the (min,max) counters from being moved to the ring buffer while they are being collected
+    save_points_lock:        Mutex<()>,
 }
 impl<const RING_BUFFER_SIZE: usize>
 Default
@@ -135,20 +138,23 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 max_used_memory:             AtomicUsize::new(0),
             },
             used_memory_ring_buffer: RingBuffer::new(),
+            save_points_lock:        Mutex::new(()),
         }
     }
 
     /// Prepares a new measurement for future allocations, to be inferred by [delta_statistics()](MetricsAllocator::delta_statistics()).
     pub fn save_point(&self) -> MetricsAllocatorSavePoint<RING_BUFFER_SIZE> {
+        let _guard = self.save_points_lock.lock();
         // add the current (min,max) to the ring buffer and start a new counter
         // the new consumer will consume any further saved_points + the current (min,max)
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
         self.used_memory_ring_buffer.enqueue(SavePointRingBufferSlot {
-            min_used_memory: self.statistics.min_used_memory.load(Ordering::Relaxed),
-            max_used_memory: self.statistics.max_used_memory.load(Ordering::Relaxed),
+            min_used_memory: self.statistics.min_used_memory.swap(current_used_memory, Ordering::Relaxed),
+            max_used_memory: self.statistics.max_used_memory.swap(current_used_memory, Ordering::Relaxed),
         });
         let used_memory_ring_buffer_consumer = self.used_memory_ring_buffer.consumer();
-        self.statistics.min_used_memory.store(self.statistics.current_used_memory.load(Ordering::Relaxed), Ordering::Relaxed);
-        self.statistics.max_used_memory.store(self.statistics.current_used_memory.load(Ordering::Relaxed), Ordering::Relaxed);
+        // account for any concurrent operation that took place after loading 'current_used_memory'
+        self.compute_min_and_max_used_memories();
         MetricsAllocatorSavePoint {
             metrics: MetricsAllocatorStatistics {
                 allocations_count:           self.statistics.allocations_count          .load(Ordering::Relaxed),
@@ -160,7 +166,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed),
                 reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed),
                 reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed),
-                current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+                current_used_memory,
                 min_used_memory:             self.statistics.min_used_memory            .load(Ordering::Relaxed),
                 max_used_memory:             self.statistics.max_used_memory            .load(Ordering::Relaxed),
             },
@@ -173,6 +179,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     pub fn delta_statistics(&self, save_point: &MetricsAllocatorSavePoint<RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
         let mut min = usize::MAX;
         let mut max = usize::MIN;
+        let _guard = self.save_points_lock.lock();
         // compute (min,max) since the given 'save_point'
         for peeked_chunk in save_point.used_memory_ring_buffer_consumer.peek_all()? {
             for subsequent_save_point in peeked_chunk {
-- 
2.43.0


From af120a7f21c65950aa4896e586f5c8facb2d7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 07/24] fix: CRUD passes skipped elements when iterations
 weren't a multiple of the threads

'iterations_per_pass' is the number of times each algorithm runs per pass, but the
remainder of its division by the number of threads was dropped: the last elements
weren't created and deletes were asked for ones that didn't exist -- including on
retries, for which the number of iterations is adapted. Element numbers starting
at 2^31 weren't handled either.
---
 src/runners/common.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index d8a62d8..302af19 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -121,12 +121,13 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
     crossbeam::scope(|scope| {
 
         // start all threads
-        let i32_range = range.end as i32 .. range.start as i32;
-        let chunk_size = (i32_range.end-i32_range.start)/threads as i32;
+        let i64_range = range.end as i64 .. range.start as i64;
+        // thread `n` starts where thread `n-1` ended, so all elements are covered even if they cannot be equally divided
+        let chunk_start = |n: i64| i64_range.start + (i64_range.end-i64_range.start) * n / threads as i64;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
         let allocator_savepoint = features::ALLOC.save_point();
-        for n in 0..threads as i32 {
-            let chunked_range = i32_range.start+chunk_size*n..i32_range.start+chunk_size*(n+1);
+        for n in 0..threads as i64 {
+            let chunked_range = chunk_start(n)..chunk_start(n+1);
             thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range.start as u32 .. chunked_range.end as u32)) );
         }
 
-- 
2.43.0


From d82dffc324d386a7795888bfba9cf7667eca3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 08/24] fix: CRUD operations with 0 threads panicked with a
 division by zero

As documented: 'An analysis will be None if the provided *_iterations_per_pass or
*_threads are 0'
---
 src/runners/crud.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 2765e75..a3c884d 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -218,6 +218,12 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                                              CRUDComplexityAnalysisError>
                                    where PassResult: Copy {
 
+    // no analysis is done for operations without threads to run them
+    let create_iterations_per_pass = if create_threads > 0 { create_iterations_per_pass } else { 0 };
+    let   read_iterations_per_pass = if   read_threads > 0 {   read_iterations_per_pass } else { 0 };
+    let update_iterations_per_pass = if update_threads > 0 { update_iterations_per_pass } else { 0 };
+    let delete_iterations_per_pass = if delete_threads > 0 { delete_iterations_per_pass } else { 0 };
+
     let mut full_report = String::with_capacity(2048);
 
     // wrap around the original 'OUTPUT' function to capture the [full_report]
-- 
2.43.0


From 563e49507eb655b49a0b2129323d058384c2110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 09/24] fix: CRUD tests with no retry attempts always passed,
 without running anything

---
 src/runners/crud.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index a3c884d..f30a1da 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -55,6 +55,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
 
     }
 
+    // there should always be a first attempt
+    let max_retry_attempts = max_retry_attempts.max(1);
+
     let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
-- 
2.43.0


From 48391fd07907ba4bfb7baed79e2b1bedc0f81fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 10/24] fix: retries of CRUD tests with few iterations skipped
 the operation, passing without testing it

---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index f30a1da..f550681 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -46,7 +46,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
         match attempt {
             0 => iterations_per_pass,
             _ => match (attempt-1) % 3 {
-                0 => iterations_per_pass / factor,
+                0 => (iterations_per_pass / factor).max(iterations_per_pass.min(1)),    // don't allow a requested operation to be skipped
                 1 => iterations_per_pass - (iterations_per_pass / factor),
                 2 => iterations_per_pass + (iterations_per_pass / factor),
                 _ => panic!("fix this match")
-- 
2.43.0


From c316181648b0a6dbaf1281e293fba926a720abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 11/24] fix: give the number of created elements to 'reset_fn'
 when retrying CRUD tests

As documented for 'n': 'for reset, the number of created elements is given' --
but it was given the constant 100.
---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index f550681..086364a 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -87,7 +87,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                 if attempt < max_retry_attempts-1 {
                     collected_errors.push(crud_analysis_error);
                     OUTPUT(&format!("\nAttempt {} failed. Resetting before retrying", attempt+1));
-                    reset_fn(100);  // 100% of the created elements
+                    reset_fn(if create_threads > 0 { 2 * adapted_create_iterations_per_pass } else { 0 });  // all elements created by the 2 passes
                     OUTPUT("...\n");
                     continue;
                 } else {
-- 
2.43.0


From 33cccd7e579667bf65482a6a27c3f1d8a1929e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 12/24] fix: overflow on the number of warmup elements of CRUD
 tests with many iterations

---
 src/runners/crud.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 086364a..8bec3bf 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -440,8 +440,9 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     if warmup_percentage > 0 {
 
         // warmup ranges
-        let calc_warmup_cru_range = |iterations_per_pass|  0 .. iterations_per_pass * warmup_percentage / 100;
-        let calc_warmup_d_range = |iterations_per_pass| iterations_per_pass * warmup_percentage / 100 .. 0;
+        let calc_warmup_iterations = |iterations_per_pass: u32| (iterations_per_pass as u64 * warmup_percentage as u64 / 100) as u32;
+        let calc_warmup_cru_range = |iterations_per_pass|  0 .. calc_warmup_iterations(iterations_per_pass);
+        let calc_warmup_d_range = |iterations_per_pass| calc_warmup_iterations(iterations_per_pass) .. 0;
 
         let warmup_start = Instant::now();
         _output("warming up [");
@@ -467,7 +468,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
             r ^= warmup_r;
         }
         _output("] ");
-        reset_fn(create_iterations_per_pass * warmup_percentage / 100);
+        reset_fn(calc_warmup_iterations(create_iterations_per_pass));
 
         let warmup_end = Instant::now();
         let warmup_elapsed = warmup_end.duration_since(warmup_start);
-- 
2.43.0


From f64b57dd1ec977680dfb88c55967ad90bb148be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 13/24] fix: hand the warmup data to the reset that follows it
 on async tests

Like in all the other resets, the function should be able to clean up what
the previous stage left behind -- but the warmup data was dropped.
---
 src/api/builders/regular_async_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/builders/regular_async_builder.rs b/src/api/builders/regular_async_builder.rs
index f3b7d24..f73f7af 100644
--- a/src/api/builders/regular_async_builder.rs
+++ b/src/api/builders/regular_async_builder.rs
@@ -97,7 +97,7 @@ RegularAsyncAnalyzerBuilder<FirstPassFn, FirstPassFut, SecondPassFn, SecondPassF
                 let (_warmup_pass_result, algo_data) = run_async_pass_verbosely("  Warming up: ", ";", algo_data, warmup_fn, OUTPUT).await;
                 // reset again
                 if let Some(reset_fn) = &mut self.reset_fn {
-                    let (_reset_pass_result, algo_data) = run_async_pass_verbosely("  Resetting again: ", ";", None, reset_fn, OUTPUT).await;
+                    let (_reset_pass_result, algo_data) = run_async_pass_verbosely("  Resetting again: ", ";", Some(algo_data), reset_fn, OUTPUT).await;
                     Some(algo_data)     // return the "after second reset" data
                 } else {
                     Some(algo_data)     // return the "after warmup" data
-- 
2.43.0


From 8be9c42246d690b9a9b863cd3529c5908c0a8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 14/24] fix: wrong sign when presenting small memory variations
 on processes using lots of memory

'f32's are not able to represent differences of a few bytes on values over 16MiB
---
 src/low_level_analysis/types/types_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 5b6d52d..3408687 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -186,8 +186,7 @@ impl BigOSpacePassMeasurements {
     /// When `n` is 1.0, shows the absolute RAM usage;
     /// otherwise, `n` should be the number of elements and the output will represent the memory usage per element
     pub fn fmt_over_n(&self, n: u32) -> String {
-        let used_memory = (self.used_memory_after as f32 - self.used_memory_before as f32) / n as f32;
-        let sign = if used_memory > 0.0 {"+"} else if used_memory < 0.0 {"-"} else {""};
+        let sign = if self.used_memory_after > self.used_memory_before {"+"} else if self.used_memory_after < self.used_memory_before {"-"} else {""};
         let used_memory = std::cmp::max( self.max_used_memory    - self.used_memory_before,
                                               self.used_memory_before - self.min_used_memory ) as f32 / n as f32;
         let memory_unit = if used_memory.abs() > (1<<30) as f32 {"GiB"}                        else if used_memory.abs() > (1<<20) as f32 {"MiB"}                              else if used_memory.abs() > (1<<10) as f32 {"KiB"}                              else {"b"};
-- 
2.43.0


From 208b46edc1e603fd20db8d3293b5c5d630ded91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 15/24] fix: overflow when presenting the auxiliary space of a
 pass for which measurements aren't available

The sentinel used when the save point is lost has 'usize::MAX' as the maximum used
memory: the auxiliary space of the other pass was added to it before subtracting.
---
 src/low_level_analysis/types/types_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 3408687..7bb18ac 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -154,8 +154,8 @@ impl BigOSpaceMeasurements {
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
     pub fn used_auxiliary_space(&self) -> usize {
-        self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before) +
-            self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before)
+        (self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before)) +
+            (self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before))
     }
 }
 impl Display for BigOSpaceMeasurements {
-- 
2.43.0


From f5dda557f945007c04ee5afdcc2854491b90da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 16/24] verification hook: expose the crate-private measurement
 module under cfg(verif_hooks)

---
 src/lib.rs                                         | 9 +++++++++
 src/utils/measurements/presentable_measurements.rs | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6651f60..a9513f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,3 +20,12 @@ pub use {
         crud::test_crud_algorithms,
     },
 };
+
+#[cfg(verif_hooks)]
+/// Access to crate-private items, for external verification harnesses only (compile with `RUSTFLAGS="--cfg verif_hooks"`)
+pub mod verif_hooks {
+    pub use crate::utils::measurements::{
+        measurer::*,
+        presentable_measurements::*,
+    };
+}
diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 2737e5a..4fe4158 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -178,6 +178,12 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
     }
 }
 
+#[cfg(verif_hooks)]
+/// Access to the private [custom_unit_per_second_measurement()], for external verification harnesses only
+pub fn verif_custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
+    custom_unit_per_second_measurement(value, custom_unit)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 63c2da135279b697878e35b4bb3ba46734637dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 17/24] fix: threads sharing a just overflowed ring-buffer
 consumer could still dequeue from it

---
 src/metrics_allocator/ring_buffer.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 5b3bc73..5b6a53d 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,7 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::cell::UnsafeCell;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
@@ -54,6 +54,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
             head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            overflowed: AtomicBool::new(false),
             ring_buffer: self,
         }
     }
@@ -121,6 +122,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
     head: AtomicU32,
+    /// set when an overflow is first reported, so threads sharing this consumer don't get any more elements afterwards
+    overflowed: AtomicBool,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
 }
 impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
@@ -135,6 +138,9 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         loop {
             // `Acquire` pairs with the producers' `Release`, making the slots up to `published_tail` visible here
             let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+            if self.overflowed.load(Ordering::Acquire) {
+                return Err(self.overflow_error(published_tail, head));
+            }
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -144,10 +150,9 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             }
             // when overflowed, `head` must stay where it is (unless outdated by another thread): this consumer is no longer valid
             let overflowed = || self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32;
-            let overflow_error = || RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) };
             if overflowed() {
                 match self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Relaxed) {
-                    Ok(_) => return Err(overflow_error()),
+                    Ok(_) => return Err(self.overflow_error(published_tail, head)),
                     Err(reloaded_head) => {
                         head = reloaded_head;
                         continue;
@@ -159,7 +164,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                     if overflowed() {
                         // overflowed while dequeueing: give the element back
                         self.head.fetch_min(head, Ordering::AcqRel);
-                        return Err(overflow_error());
+                        return Err(self.overflow_error(published_tail, head));
                     }
                     return Ok(Some(&*self.ring_buffer.slots_ptr().add(head as usize % RING_BUFFER_SIZE)))
                 },
@@ -195,13 +200,15 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
-        if head == published_tail {
+        if self.overflowed.load(Ordering::Acquire) {
+            Err(self.overflow_error(published_tail, head))
+        } else if head == published_tail {
             Ok([&[],&[]])
         } else if published_tail - head > RING_BUFFER_SIZE as u32 {
             if self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Relaxed).is_err() {
                 return self.peek_all();     // another thread has just dequeued from this consumer: our `head` is outdated
             }
-            Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
+            Err(self.overflow_error(published_tail, head))
         } else if head_index < published_tail_index {
             unsafe {
                 let ptr = self.ring_buffer.slots_ptr();
@@ -215,6 +222,12 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         }
     }
 
+    /// Marks this consumer as no longer valid & returns the error to be reported
+    fn overflow_error(&self, published_tail: u32, head: u32) -> RingBufferOverflowError {
+        self.overflowed.store(true, Ordering::Release);
+        RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) }
+    }
+
 }
 
 
-- 
2.43.0


From ef13d3499232740d7d7c44d89f9912ef1248daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 18/24] fix: usage reported by delta_statistics() might be
 outside of its own [min, max], when other threads were using the allocator --
 making tests panic with 'attempt to subtract with overflow'

---
 src/metrics_allocator/metrics_allocator.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index be55bd8..779a488 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -187,9 +187,11 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 max = max.max(subsequent_save_point.max_used_memory);
             }
         }
-        // compute the current (min,max)
-        min = min.min(self.statistics.min_used_memory.load(Ordering::Relaxed));
-        max = max.max(self.statistics.max_used_memory.load(Ordering::Relaxed));
+        // compute the current (min,max) -- including the usage to be reported as current, as a concurrent operation
+        // might have changed it and not have had it accounted for there yet
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        min = min.min(self.statistics.min_used_memory.load(Ordering::Relaxed)).min(current_used_memory);
+        max = max.max(self.statistics.max_used_memory.load(Ordering::Relaxed)).max(current_used_memory);
         Ok(MetricsAllocatorStatistics::<usize> {
             allocations_count:           self.statistics.allocations_count          .load(Ordering::Relaxed) - save_point.metrics.allocations_count,
             deallocations_count:         self.statistics.deallocations_count        .load(Ordering::Relaxed) - save_point.metrics.deallocations_count,
@@ -200,7 +202,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
             zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed) - save_point.metrics.zeroed_allocated_bytes,
             reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed) - save_point.metrics.reallocated_originals_bytes,
             reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed) - save_point.metrics.reallocated_news_bytes,
-            current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+            current_used_memory,
             min_used_memory:             min,
             max_used_memory:             max,
         })
-- 
2.43.0


From f6c04dcdc0d8200c55b79bb6f6de648d7072851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:08 +0000
Subject: [PATCH 19/24] fix: CRUD tests given a huge number of retry attempts
 aborted the process, for lack of memory

Room for one error per allowed attempt was reserved beforehand: with u32::MAX attempts ('retry until it passes'),
the allocation of hundreds of GiB is refused, aborting the process before anything is run.
---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 8bec3bf..b5ef96a 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -58,7 +58,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     // there should always be a first attempt
     let max_retry_attempts = max_retry_attempts.max(1);
 
-    let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
+    let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::new();
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
     // the maximum acceptable create, read, update or delete 'expected_*_time_complexity'(ies)
-- 
2.43.0


From 423f028414b5a63053ef0bdc31a8e56271ee8769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 20/24] fix: ring-buffers stopped working after 2^32 enqueues

Their 32 bits counters wrapped around, which: in debug, panics with 'attempt to add with overflow';
in release, makes dequeue() loop forever (and slots being misplaced, for sizes other than powers of two)
---
 src/metrics_allocator/ring_buffer.rs | 32 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 5b6a53d..a95b652 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,7 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::*;
 use std::cell::UnsafeCell;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
@@ -20,9 +20,9 @@ use std::fmt::{Display, Formatter};
 /// See [self] for more info.
 pub struct RingBuffer<Slot, const RING_BUFFER_SIZE: usize> {
     /// if ahead of [published_tail], indicates new slots is being filled in, to soon be published
-    reserved_tail: AtomicU32,
+    reserved_tail: AtomicUsize,
     /// once the slot data is set in place, this counter increases to indicate a new element is ready to be consumed
-    published_tail: AtomicU32,
+    published_tail: AtomicUsize,
     /// the data -- slots in the range `0..reserved_tail` (up to the buffer size) are the ones initialized
     buffer: UnsafeCell<MaybeUninit<[Slot; RING_BUFFER_SIZE]>>,
 }
@@ -44,8 +44,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
     pub const fn new() -> Self {
         Self {
-            reserved_tail: AtomicU32::new(0),
-            published_tail: AtomicU32::new(0),
+            reserved_tail: AtomicUsize::new(0),
+            published_tail: AtomicUsize::new(0),
             buffer: UnsafeCell::new(MaybeUninit::uninit()),
         }
     }
@@ -53,7 +53,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            head: AtomicUsize::new(self.published_tail.load(Ordering::Relaxed)),
             overflowed: AtomicBool::new(false),
             ring_buffer: self,
         }
@@ -65,13 +65,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
         // reserve the slot
         let reserved_tail = self.reserved_tail.fetch_add(1, Ordering::Relaxed);
         // wait for the previous element on that slot (if any) to be published -- otherwise, its producer might still be writing to it
-        while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE as u32 {
+        while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE {
             std::hint::spin_loop();
         }
         // set the reserved slot contents
         unsafe {
-            let slot = self.slots_ptr().add(reserved_tail as usize % RING_BUFFER_SIZE);
-            if (reserved_tail as usize) < RING_BUFFER_SIZE {
+            let slot = self.slots_ptr().add(reserved_tail % RING_BUFFER_SIZE);
+            if reserved_tail < RING_BUFFER_SIZE {
                 slot.write(element);    // first time this slot is used: there is no previous element there to be dropped
             } else {
                 *slot = element;
@@ -121,7 +121,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// If these 3 steps are not enough, you might consider using a non-zero-cost multiple consumers ring-buffer, a non-zero-copy one or even a
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
-    head: AtomicU32,
+    head: AtomicUsize,
     /// set when an overflow is first reported, so threads sharing this consumer don't get any more elements afterwards
     overflowed: AtomicBool,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
@@ -149,7 +149,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 return Ok(None);
             }
             // when overflowed, `head` must stay where it is (unless outdated by another thread): this consumer is no longer valid
-            let overflowed = || self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32;
+            let overflowed = || self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE;
             if overflowed() {
                 match self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Relaxed) {
                     Ok(_) => return Err(self.overflow_error(published_tail, head)),
@@ -166,7 +166,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                         self.head.fetch_min(head, Ordering::AcqRel);
                         return Err(self.overflow_error(published_tail, head));
                     }
-                    return Ok(Some(&*self.ring_buffer.slots_ptr().add(head as usize % RING_BUFFER_SIZE)))
+                    return Ok(Some(&*self.ring_buffer.slots_ptr().add(head % RING_BUFFER_SIZE)))
                 },
                 Err(reloaded_head) => head = reloaded_head,
             }
@@ -198,13 +198,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         // `Acquire` makes sure we don't see a tail older than the one seen by whoever moved `head`, nor unpublished slot data
         let head = self.head.load(Ordering::Acquire);
         let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
-        let head_index           = head as usize % RING_BUFFER_SIZE;
-        let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
+        let head_index           = head % RING_BUFFER_SIZE;
+        let published_tail_index = published_tail % RING_BUFFER_SIZE;
         if self.overflowed.load(Ordering::Acquire) {
             Err(self.overflow_error(published_tail, head))
         } else if head == published_tail {
             Ok([&[],&[]])
-        } else if published_tail - head > RING_BUFFER_SIZE as u32 {
+        } else if published_tail - head > RING_BUFFER_SIZE {
             if self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Relaxed).is_err() {
                 return self.peek_all();     // another thread has just dequeued from this consumer: our `head` is outdated
             }
@@ -223,7 +223,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     }
 
     /// Marks this consumer as no longer valid & returns the error to be reported
-    fn overflow_error(&self, published_tail: u32, head: u32) -> RingBufferOverflowError {
+    fn overflow_error(&self, published_tail: usize, head: usize) -> RingBufferOverflowError {
         self.overflowed.store(true, Ordering::Release);
         RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) }
     }
-- 
2.43.0


From 45cd3550837c13890b0f081b6583a09fed35059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:53 +0000
Subject: [PATCH 21/24] =?UTF-8?q?fix:=20the=20=CE=A3n=20of=20the=20second?=
 =?UTF-8?q?=20pass=20of=20set-resizing=20reports=20overflowed=20for=20sets?=
 =?UTF-8?q?=20of=202^31=20elements=20or=20more?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/low_level_analysis/types/types_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 7bb18ac..40357b3 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -139,7 +139,7 @@ impl Display for SetResizingIteratorAlgorithmMeasurements<'_> {
                    2) {:>13}  {:>14}  {:>12}  {:>12.3?}\n",
                self.measurement_name,
                pass_1_time, pass_1_space, self.passes_info.delta_set_size,   Duration::from_secs_f64(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64),
-               pass_2_time, pass_2_space, self.passes_info.delta_set_size*2, Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64))
+               pass_2_time, pass_2_space, self.passes_info.delta_set_size as u64 * 2, Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64))
     }
 }
 
-- 
2.43.0


From 94ec039a235d7eaab988dc3abce4ee160741f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:13 +0000
Subject: [PATCH 22/24] fix: peeking handed out the element being replaced by
 an ongoing enqueue

dequeue() already judges overflows by reserved_tail; peek_all() still judged
them by published_tail, so, when the consumer lagged by exactly the ring size,
it returned a reference to the slot being dropped & overwritten by an enqueue
in course.
---
 src/metrics_allocator/ring_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index a95b652..d2a76b0 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -204,7 +204,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             Err(self.overflow_error(published_tail, head))
         } else if head == published_tail {
             Ok([&[],&[]])
-        } else if published_tail - head > RING_BUFFER_SIZE {
+        } else if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE {
             if self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Relaxed).is_err() {
                 return self.peek_all();     // another thread has just dequeued from this consumer: our `head` is outdated
             }
-- 
2.43.0


From d71a15e91181925d062d9b55953f2bdfd88476e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:03 +0000
Subject: [PATCH 23/24] fix: elements still in the ring-buffer were never
 dropped when the ring-buffer was

---
 src/metrics_allocator/ring_buffer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index d2a76b0..3f0f9e4 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -101,6 +101,19 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
 }
 
+impl<Slot, const RING_BUFFER_SIZE: usize>
+Drop
+for RingBuffer<Slot, RING_BUFFER_SIZE> {
+    /// drops the elements still in the buffer -- the ones they replaced were dropped when enqueueing
+    fn drop(&mut self) {
+        let initialized_slots = std::cmp::min(*self.published_tail.get_mut(), RING_BUFFER_SIZE);
+        // SAFETY: with exclusive access to the ring-buffer, no enqueueing is in progress: all of these slots are initialized & are never used again
+        unsafe {
+            std::ptr::slice_from_raw_parts_mut(self.slots_ptr(), initialized_slots).drop_in_place();
+        }
+    }
+}
+
 
 /// Provides a ring-buffer consumer, to be created with:
 /// ```
-- 
2.43.0


From 9a870e0c56630bba244ca70cba3593343c8e3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:53 +0000
Subject: [PATCH 24/24] fix: custom units used by tests running in several
 threads raced for their cache

---
 .../measurements/presentable_measurements.rs  | 39 ++++++++-----------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 4fe4158..749915e 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -3,9 +3,13 @@
 use std::borrow::Cow;
 use std::collections::HashMap;
 use std::fmt::Display;
+use std::sync::{Mutex, PoisonError};
 use std::time::Duration;
 use once_cell::sync::Lazy;
 
+/// the `auto_scale` data of each custom unit used so far -- which are to live for as long as the process does
+type AutoScaleCache = HashMap<&'static str, &'static [(f64, f64, Cow<'static, str>, &'static str)]>;
+
 /// Holds and present custom unit measurements with auto-scaling
 pub struct PresentableMeasurement {
     pub(crate) value: f64,
@@ -115,16 +119,10 @@ pub fn bytes_per_second_measurement(value: f64) -> PresentableMeasurement {
 /// quantities representing "a quantity of `custom_unit`".
 pub fn custom_unit_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
 
-    static mut AUTO_SCALE_DATA: Option<HashMap<&str, Vec<(f64, f64, Cow<'static, str>, &'static str)>>> = None;
+    static AUTO_SCALE_DATA: Lazy<Mutex<AutoScaleCache>> = Lazy::new(Default::default);
 
-    // non-synchronized one-time cache
-    let auto_scale_data = unsafe {
-        #[allow(static_mut_refs)]
-        // safety: this crate ensures a single thread will call the measurement & report functions.
-        // The alternative would be to use Mutexes, which are not needed in this case
-        &mut AUTO_SCALE_DATA
-    }
-        .get_or_insert_with(HashMap::new)
+    // one-time cache per `custom_unit` -- synchronized, as tests run in several threads
+    let auto_scale: &'static [_] = AUTO_SCALE_DATA.lock().unwrap_or_else(PoisonError::into_inner)
         .entry(custom_unit)
         .or_insert_with(|| {
             [
@@ -134,13 +132,13 @@ pub fn custom_unit_measurement(value: f64, custom_unit: &'static str) -> Present
             ]
             .into_iter()
             .map(|(threshold, suffix, format)| (threshold, 1.0, Cow::Borrowed(suffix), format))
-            .collect()
+            .collect::<Vec<_>>()
+            .leak()
         });
 
     PresentableMeasurement {
         value,
-        auto_scale: auto_scale_data.as_slice(),
-
+        auto_scale,
     }
 }
 
@@ -148,16 +146,10 @@ pub fn custom_unit_measurement(value: f64, custom_unit: &'static str) -> Present
 /// quantities representing "a rate of `custom_unit` quantities per second".
 fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
 
-    static mut AUTO_SCALE_DATA: Option<HashMap<&str, Vec<(f64, f64, Cow<'static, str>, &'static str)>>> = None;
+    static AUTO_SCALE_DATA: Lazy<Mutex<AutoScaleCache>> = Lazy::new(Default::default);
 
-    // non-synchronized cache per `custom_unit`
-    let auto_scale_data = unsafe {
-        #[allow(static_mut_refs)]
-        // safety: this crate ensures a single thread will call the measurement & report functions.
-        // The alternative would be to use Mutexes, which are not needed in this case
-        &mut AUTO_SCALE_DATA
-    }
-        .get_or_insert_with(HashMap::new)
+    // one-time cache per `custom_unit` -- synchronized, as tests run in several threads
+    let auto_scale: &'static [_] = AUTO_SCALE_DATA.lock().unwrap_or_else(PoisonError::into_inner)
         .entry(custom_unit)
         .or_insert_with(|| {
             [
@@ -169,12 +161,13 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
             ]
             .into_iter()
             .map(|(threshold, rate, suffix, format)| (threshold, rate, Cow::Owned(suffix), format))
-            .collect()
+            .collect::<Vec<_>>()
+            .leak()
         });
 
     PresentableMeasurement {
         value,
-        auto_scale: auto_scale_data.as_slice(),
+        auto_scale,
     }
 }
 
-- 
2.43.0

