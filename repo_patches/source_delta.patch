From b599bc550ad37539c69de10a84170a9e803cdc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:39 +0000
Subject: [PATCH 01/49] fix: count cancelled timeouts as work

A timeout that was cancelled after it had been queued was dropped from the
queue without being counted, so the component's work count never returned
to zero and the component was not scheduled for later messages.
---
 core/src/component/actual_component.rs | 5 +++++
 core/src/timer/timer_manager.rs        | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index ca1a77a..957b5e3 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -521,6 +521,11 @@ impl<CD: ComponentTraits> Component<CD> {
                             count += 1;
                             res
                         }
+                        // the cancelled timeout was still counted when it was enqueued
+                        ExecuteAction::Cancelled => {
+                            count += 1;
+                            Handled::OK
+                        }
                         ExecuteAction::None => break,
                     };
                     check_and_handle_blocking!(self, guard, count, res);
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 7957055..c4eac39 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -212,6 +212,8 @@ pub(crate) struct Timeout(pub(crate) Uuid);
 
 pub(crate) enum ExecuteAction<C: ComponentDefinition> {
     None,
+    /// A timeout was taken from the queue, but it has been cancelled in the meantime
+    Cancelled,
     Periodic(Uuid, Rc<dyn Fn(&mut C, Uuid) -> HandlerResult>),
     Once(Uuid, Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult>),
 }
@@ -251,7 +253,7 @@ impl<C: ComponentDefinition> TimerManager<C> {
                     );
                     ExecuteAction::Periodic(timeout.0, action2)
                 }
-                _ => ExecuteAction::None,
+                None => ExecuteAction::Cancelled,
             }
         } else {
             ExecuteAction::None
-- 
2.43.0


From ad31fbc765bf58a93312ffdde96c2a62c2bb2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 02/49] fix: ignore control events queued behind a kill

A start or stop event that was queued behind a kill event made the
destroyed component active or passive again and ran its lifecycle hooks.
---
 core/src/component/actual_component.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 957b5e3..6d1ba9e 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -502,6 +502,10 @@ impl<CD: ComponentTraits> Component<CD> {
                             }
                         }
                     }
+                    if lifecycle::is_destroyed(&self.core.state) {
+                        // control events behind a kill must not bring the component back
+                        return SchedulingDecision::NoWork;
+                    }
                 }
                 if !lifecycle::is_active(&self.core.state) {
                     trace!(self.logger, "Not running inactive scheduled.");
-- 
2.43.0


From 369d8c5edb4e9cef6a54d215065f56a6bc8c5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 03/49] fix: check for an ended component again under the lock

A wakeup of a blocking future can make two threads execute the same
component. The thread waiting for the lock only checked the lifecycle state
before waiting, and went on to serve control events after the other thread
had already destroyed the component.
---
 core/src/component/actual_component.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 6d1ba9e..5419859 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -400,6 +400,12 @@ impl<CD: ComponentTraits> Component<CD> {
 
         match self.mutable_core.lock() {
             Ok(mut guard) => {
+                if lifecycle::is_destroyed(&self.core.state)
+                    || lifecycle::is_faulty(&self.core.state)
+                {
+                    // the component ended while this thread was waiting for the lock
+                    return SchedulingDecision::NoWork;
+                }
                 if guard.definition.ctx().is_blocking() {
                     match guard.definition.ctx_mut().run_blocking_task() {
                         BlockingTaskResult::Pending => return SchedulingDecision::Blocked,
-- 
2.43.0


From cfc3572111aa6c93cf50aa7525af3b7e95aeef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 04/49] fix: keep a stopped component passive after a
 background future blocks

A background future that finished with BlockOn while the component was
not active left the component active once the blocking future completed,
without a start event and without running on_start.
---
 core/src/component/actual_component.rs | 9 ++++++++-
 core/src/component/context.rs          | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 5419859..02158c4 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -230,6 +230,10 @@ impl<CD: ComponentTraits> Component<CD> {
         lifecycle::set_active(&self.core.state)
     }
 
+    pub(super) fn set_inactive(&self) {
+        lifecycle::set_passive(&self.core.state)
+    }
+
     pub(super) fn set_passive(&self) {
         lifecycle::set_passive(&self.core.state);
         if let Some(ref supervisor) = self.supervisor {
@@ -475,7 +479,10 @@ impl<CD: ComponentTraits> Component<CD> {
                                 lifecycle::ControlEvent::Start => StateTransition::Started,
                                 lifecycle::ControlEvent::Stop => StateTransition::Passive,
                                 lifecycle::ControlEvent::Kill => StateTransition::Destroyed,
-                                _ => StateTransition::Active,
+                                _ if lifecycle::is_active(&self.core.state) => {
+                                    StateTransition::Active
+                                }
+                                _ => StateTransition::Inactive,
                             };
                             guard
                                 .definition
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 6b81bdc..ba357a5 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -10,6 +10,7 @@ use std::task::Poll;
 pub(super) enum StateTransition {
     #[default]
     Active,
+    Inactive,
     Started,
     Passive,
     Destroyed,
@@ -254,6 +255,7 @@ where
                 if matches!(&result, Ok(Handled::Ok) | Err(HandlerError::Benign(_))) {
                     match blocking_state.unblock_state {
                         StateTransition::Active => component.set_active(),
+                        StateTransition::Inactive => component.set_inactive(),
                         StateTransition::Started => {
                             component.set_active();
                             component.notify_started();
-- 
2.43.0


From e3d9ef3a05344d22ca978b6f802a7354c5c4397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 05/49] fix: wake a component through its own scheduler for
 port events and timeouts

Port events and timeouts scheduled a component with a dedicated thread on
the system's thread pool instead of waking its own thread.
---
 core/src/ports.rs               | 6 ++----
 core/src/timer/timer_manager.rs | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/ports.rs b/core/src/ports.rs
index bf222a2..a81f8a2 100644
--- a/core/src/ports.rs
+++ b/core/src/ports.rs
@@ -393,8 +393,7 @@ impl<P: Port + 'static> ProvidedRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
@@ -465,8 +464,7 @@ impl<P: Port + 'static> RequiredRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index c4eac39..05beda8 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -358,8 +358,7 @@ impl TimerActorRef {
                 let res = c.core().increment_work();
                 q.push(timeout);
                 if let SchedulingDecision::Schedule = res {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 Ok(())
             }
-- 
2.43.0


From 47d0d37792b42eef93e78f555325ec6d2a57df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 06/49] fix: resume a component in a loop instead of
 recursively

---
 core/src/runtime/scheduler.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/core/src/runtime/scheduler.rs b/core/src/runtime/scheduler.rs
index ae946f4..7d49dd9 100644
--- a/core/src/runtime/scheduler.rs
+++ b/core/src/runtime/scheduler.rs
@@ -116,20 +116,24 @@ impl<E: FuturesExecutor + Sync + 'static> Scheduler for ExecutorScheduler<E> {
 }
 
 fn maybe_reschedule(c: Arc<dyn CoreContainer>) {
-    match c.execute() {
-        SchedulingDecision::Schedule => {
-            if cfg!(feature = "use_local_executor") {
-                let res = try_execute_locally(move || maybe_reschedule(c));
-                assert!(
-                    res.is_ok(),
-                    "Only run with Executors that can support local execute or remove the avoid_executor_lookups feature!"
-                );
-            } else {
-                let c2 = c.clone();
-                c.system().schedule(c2);
+    loop {
+        match c.execute() {
+            SchedulingDecision::Schedule => {
+                if cfg!(feature = "use_local_executor") {
+                    let res = try_execute_locally(move || maybe_reschedule(c));
+                    assert!(
+                        res.is_ok(),
+                        "Only run with Executors that can support local execute or remove the avoid_executor_lookups feature!"
+                    );
+                } else {
+                    let c2 = c.clone();
+                    c.system().schedule(c2);
+                }
+                return;
             }
+            // not recursive, as a component may resume any number of times in a row
+            SchedulingDecision::Resume => (),
+            _ => return,
         }
-        SchedulingDecision::Resume => maybe_reschedule(c),
-        _ => (),
     }
 }
-- 
2.43.0


From a9b1377b471122567075cf831cf57e0fc42dc45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:31 +0000
Subject: [PATCH 07/49] fix: serve the next port first after a handler blocked
 or failed

---
 macros/component-definition-derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/macros/component-definition-derive/src/lib.rs b/macros/component-definition-derive/src/lib.rs
index cd9713f..fd70e95 100644
--- a/macros/component-definition-derive/src/lib.rs
+++ b/macros/component-definition-derive/src/lib.rs
@@ -75,6 +75,8 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                 let id = &f.ident;
                 //let ref ty = f.ty;
                 let handle = t.as_handle();
+                // a port that was served is last in line next time, also if its handler ended the execution
+                let next = i + 1;
                 quote! {
                     if skip <= #i {
                         if count >= max_events {
@@ -90,13 +92,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                     Ok(Handled::Ok) => (),
                                     Ok(Handled::BlockOn(blocking_future)) => {
                                         self.ctx_mut().set_blocking(blocking_future);
-                                        return ExecuteResult::new(true, count, #i);
+                                        return ExecuteResult::new(true, count, #next);
                                     }
                                     Ok(Handled::Shutdown) => {
                                         return ExecuteResult::shutdown(count, #i);
                                     }
                                     Err(error) => {
-                                        return ExecuteResult::error(error, count, #i);
+                                        return ExecuteResult::error(error, count, #next);
                                     }
                                 }
                             }
@@ -112,6 +114,8 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                 let id = &f.ident;
                 //let ref ty = f.ty;
                 let handle = t.as_handle();
+                // a port that was served is last in line next time, also if its handler ended the execution
+                let next = i + 1;
                 quote! {
                     if count >= max_events {
                         return ExecuteResult::new(false, count, #i);
@@ -126,13 +130,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                 Ok(Handled::Ok) => (),
                                 Ok(Handled::BlockOn(blocking_future)) => {
                                     self.ctx_mut().set_blocking(blocking_future);
-                                    return ExecuteResult::new(true, count, #i);
+                                    return ExecuteResult::new(true, count, #next);
                                 }
                                 Ok(Handled::Shutdown) => {
                                     return ExecuteResult::shutdown(count, #i);
                                 }
                                 Err(error) => {
-                                    return ExecuteResult::error(error, count, #i);
+                                    return ExecuteResult::error(error, count, #next);
                                 }
                             }
                         }
-- 
2.43.0


From b20af40fc16800947e89706325621a8f3d873ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:50 +0000
Subject: [PATCH 08/49] fix: notify kill listeners of components that were
 never started

---
 core/src/supervision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index 24975fd..4d31209 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -326,11 +326,12 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                                 id
                             );
                         }
-                        self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
-                        self.drop_listeners(&id);
                     }
                     None => warn!(self.ctx.log(), "An untracked Component({}) was killed.", id),
                 }
+                // also for components that were killed without ever having been started
+                self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
+                self.drop_listeners(&id);
                 self.shutdown_if_no_more_children()
             }
             SupervisorMsg::Faulty(recover_handler) => {
-- 
2.43.0


From fc9cfe244dcaf00c543670c4471342362fff63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:46 +0000
Subject: [PATCH 09/49] fix: a poisoned system stays poisoned when it is
 started or shut down at the same time

---
 core/src/runtime/lifecycle.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/runtime/lifecycle.rs b/core/src/runtime/lifecycle.rs
index a8b3328..23369f6 100644
--- a/core/src/runtime/lifecycle.rs
+++ b/core/src/runtime/lifecycle.rs
@@ -9,11 +9,18 @@ pub(crate) fn initial_state() -> AtomicUsize {
 }
 
 pub(crate) fn set_active(state: &AtomicUsize) {
-    state.store(ACTIVE, Ordering::SeqCst);
+    set_unless_faulty(state, ACTIVE);
 }
 
 pub(crate) fn set_destroyed(state: &AtomicUsize) {
-    state.store(DESTROYED, Ordering::SeqCst);
+    set_unless_faulty(state, DESTROYED);
+}
+
+// The system can be poisoned at any time and must stay poisoned.
+fn set_unless_faulty(state: &AtomicUsize, new_state: usize) {
+    let _ = state.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |old_state| {
+        (old_state != FAULTY).then_some(new_state)
+    });
 }
 
 pub(crate) fn set_faulty(state: &AtomicUsize) {
-- 
2.43.0


From cbbe46daeb487fa513a4ba1eecf00e700f11d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:48 +0000
Subject: [PATCH 10/49] fix: keep a chunk's memory allocated until the last
 lease or reference is gone

BufferChunk released its memory when it was dropped, even if leases or refs
made from it were still in use, e.g. after a component with outstanding
preserialised data was destroyed in a system with a local dispatcher, or when
the network thread ended. The memory is now owned by the lock all of them share.
---
 core/src/net/buffers/chunk_lease.rs |  6 ++--
 core/src/net/buffers/chunk_ref.rs   |  6 ++--
 core/src/net/buffers/mod.rs         | 55 +++++++++++++++++++----------
 3 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index bfc7e9c..4ea5e85 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -1,4 +1,4 @@
-use super::ChunkRef;
+use super::{ChunkLock, ChunkRef};
 use crate::net::frames::FrameHead;
 use bytes::{Buf, BufMut, Bytes, buf::UninitSlice};
 use std::{cmp::Ordering, ptr::NonNull, sync::Arc};
@@ -13,7 +13,7 @@ pub struct ChunkLease {
     write_pointer: usize,
     read_pointer: usize,
     chain_head_len: usize,
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkLease>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ pub struct ChunkLease {
 
 impl ChunkLease {
     /// Creates a new `ChunkLease` from a static byte-slice with already written bytes and a `lock`.
-    pub(crate) fn new(content: &'static mut [u8], lock: Arc<()>) -> ChunkLease {
+    pub(crate) fn new(content: &'static mut [u8], lock: ChunkLock) -> ChunkLease {
         let capacity = content.len();
         let write_pointer = content.len();
         ChunkLease {
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index d8e0d42..ff50c82 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -1,5 +1,5 @@
+use super::ChunkLock;
 use crate::prelude::Buf;
-use std::sync::Arc;
 
 /// A `ChunkRef` is created from a `ChunkLease`, or from a `ChunkRef` and a `ChunkLease`.
 /// It is immutable and may be cloned and shared and chained with many other `ChunkRefs`.
@@ -10,7 +10,7 @@ pub struct ChunkRef {
     chain_head_len: usize,
     /// The presence of the `lock` field prevents the parent chunk lease from unlocking, while the chunk ref is allocated.
     #[allow(dead_code)]
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkRef>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ impl ChunkRef {
         content: &'static [u8],
         read_pointer: usize,
         chain_head_len: usize,
-        lock: Arc<()>,
+        lock: ChunkLock,
         chain: Option<Box<ChunkRef>>,
         chain_len: usize,
     ) -> Self {
diff --git a/core/src/net/buffers/mod.rs b/core/src/net/buffers/mod.rs
index 4a07143..df4a7ab 100644
--- a/core/src/net/buffers/mod.rs
+++ b/core/src/net/buffers/mod.rs
@@ -2,6 +2,7 @@ use crate::config::{Config, parse_config_file};
 use bytes::Buf;
 use core::fmt;
 use std::{
+    any::Any,
     convert::{TryFrom, TryInto},
     fmt::{Debug, Formatter},
     sync::Arc,
@@ -206,11 +207,36 @@ impl Chunk for DefaultChunk {
 /// All modifications to the Chunk goes through the get_slice method
 pub struct BufferChunk {
     chunk: *mut dyn Chunk,
-    allocator: Arc<dyn ChunkAllocator>,
-    ref_count: Arc<()>,
+    ref_count: Arc<ChunkMemory>,
     locked: bool,
 }
 
+/// Shared ownership of the memory behind a [BufferChunk]
+///
+/// Everything that can still read or write that memory holds one of these.
+pub type ChunkLock = Arc<dyn Any + Send + Sync>;
+
+/// Owns the memory of a [BufferChunk] and returns it to its allocator
+/// once the `BufferChunk` and all the locks taken from it are gone.
+struct ChunkMemory {
+    chunk: *mut dyn Chunk,
+    allocator: Arc<dyn ChunkAllocator>,
+}
+
+impl Drop for ChunkMemory {
+    fn drop(&mut self) {
+        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and nothing else
+        // refers to the allocation any more at drop time.
+        unsafe { self.allocator.release(self.chunk) };
+    }
+}
+
+// SAFETY: `ChunkMemory` never dereferences the pointer, it only hands it back to the (`Send + Sync`)
+// allocator when it is dropped.
+unsafe impl Send for ChunkMemory {}
+// SAFETY: see above, there is nothing to access through a shared reference.
+unsafe impl Sync for ChunkMemory {}
+
 impl Debug for BufferChunk {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("BufferChunk")
@@ -221,14 +247,6 @@ impl Debug for BufferChunk {
     }
 }
 
-impl Drop for BufferChunk {
-    fn drop(&mut self) {
-        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and this `BufferChunk`
-        // owns the allocation uniquely at drop time.
-        unsafe { self.allocator.release(self.chunk) };
-    }
-}
-
 // SAFETY: a `BufferChunk` owns a uniquely referenced allocation plus a lock counter. The raw
 // pointer is only dereferenced behind `&self`/`&mut self`, and the underlying chunk memory is not
 // shared mutably across threads without taking ownership of the whole `BufferChunk`.
@@ -238,20 +256,17 @@ impl BufferChunk {
     /// Allocate a new Default BufferChunk
     pub fn new(size: usize) -> Self {
         let allocator: Arc<dyn ChunkAllocator> = Arc::new(DefaultAllocator { chunk_size: size });
-        BufferChunk {
-            chunk: allocator.get_chunk(),
-            allocator,
-            ref_count: Arc::new(()),
-            locked: false,
-        }
+        BufferChunk::from_chunk(allocator.get_chunk(), allocator)
     }
 
     /// Creates a BufferChunk using the given Chunk
     pub fn from_chunk(raw_chunk: *mut dyn Chunk, allocator: Arc<dyn ChunkAllocator>) -> Self {
         BufferChunk {
             chunk: raw_chunk,
-            allocator,
-            ref_count: Arc::new(()),
+            ref_count: Arc::new(ChunkMemory {
+                chunk: raw_chunk,
+                allocator,
+            }),
             locked: false,
         }
     }
@@ -300,7 +315,9 @@ impl BufferChunk {
     }
 
     /// Clones the lock, the BufferChunk will be locked until all given locks are deallocated
-    pub fn get_lock(&self) -> Arc<()> {
+    ///
+    /// The memory behind the BufferChunk stays allocated for as long as any of the locks exist.
+    pub fn get_lock(&self) -> ChunkLock {
         self.ref_count.clone()
     }
 
-- 
2.43.0


From d9e6e2f8fd136b9d74d6c1da5ccf59095edd17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:48 +0000
Subject: [PATCH 11/49] fix: do not rewind into a full encode buffer when no
 new buffer is available

advance_mut moved the write pointer to the start of the buffer even if the swap
failed, so that the next message overwrote bytes which had been handed out.
---
 core/src/net/buffers/encode_buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 4a4f224..ef91941 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -259,10 +259,11 @@ unsafe impl BufMut for BufferEncoder<'_> {
         if remaining < cnt {
             // We need to advance partially, swap, and then advance the rest!
             self.encode_buffer.write_offset += remaining;
-            let _ = self.chain_and_swap().map_err(|err| {
-                self.ser_error = Some(err);
-            });
-            self.encode_buffer.write_offset = cnt - remaining;
+            match self.chain_and_swap() {
+                Ok(()) => self.encode_buffer.write_offset = cnt - remaining,
+                // Still the old buffer, which is full of leased bytes
+                Err(err) => self.ser_error = Some(err),
+            }
         } else {
             self.encode_buffer.write_offset += cnt;
         }
-- 
2.43.0


From 59c54ae861b7dca7dfa9ddd9fba17d02ec047c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:48 +0000
Subject: [PATCH 12/49] fix: reject advancing a chunk lease past its end

The read pointer moved past the end unchecked, after which remaining() wrapped
around to a huge number in release builds.
---
 core/src/net/buffers/chunk_lease.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index 4ea5e85..22170d0 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -230,6 +230,12 @@ impl Buf for ChunkLease {
     }
 
     fn advance(&mut self, cnt: usize) {
+        assert!(
+            cnt <= self.remaining(),
+            "Trying to advance by {} bytes with only {} remaining",
+            cnt,
+            self.remaining()
+        );
         self.read_pointer += cnt;
     }
 }
-- 
2.43.0


From 536d0d976d5a935d3954ffa884676f8093533615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:48 +0000
Subject: [PATCH 13/49] fix: keep the reclaimed buffers when a reservation
 fails

A failed try_reserve dropped the buffers it had collected while still counting
them against the maximum, so that the pool could never use that capacity again.
---
 core/src/net/buffers/buffer_pool.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/src/net/buffers/buffer_pool.rs b/core/src/net/buffers/buffer_pool.rs
index b076b31..4cd2b67 100644
--- a/core/src/net/buffers/buffer_pool.rs
+++ b/core/src/net/buffers/buffer_pool.rs
@@ -100,17 +100,20 @@ impl BufferPool {
                 reserved.push(reclaimed);
                 required_buffers -= 1;
             } else {
-                return Err(BufferError::NoAvailableBuffers(format!(
-                    "try_reserve failed while reserving {} bytes. \
-                    chunk_size: {}, max_pool_size: {}, current pool_size {} ",
-                    size, self.chunk_size, self.max_pool_size, self.pool_size
-                )));
+                break;
             }
         }
         for buffer in reserved {
             // Insert the reclaimed buffers in the front.
             self.pool.push_front(buffer);
         }
+        if required_buffers > 0 {
+            return Err(BufferError::NoAvailableBuffers(format!(
+                "try_reserve failed while reserving {} bytes. \
+                chunk_size: {}, max_pool_size: {}, current pool_size {} ",
+                size, self.chunk_size, self.max_pool_size, self.pool_size
+            )));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 18472ce23aaa374e8a73178df1546f8cd634dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:55 +0000
Subject: [PATCH 14/49] fix: synchronise with the last reader before a buffer
 is reused

Arc::strong_count is a relaxed read, so writes to a reused buffer raced with
the last reads through the lease that had been dropped on another thread.
---
 core/src/net/buffers/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/net/buffers/mod.rs b/core/src/net/buffers/mod.rs
index df4a7ab..c699144 100644
--- a/core/src/net/buffers/mod.rs
+++ b/core/src/net/buffers/mod.rs
@@ -324,7 +324,8 @@ impl BufferChunk {
     /// Returns true if this BufferChunk is available again
     pub fn free(&mut self) -> bool {
         if self.locked {
-            if Arc::strong_count(&self.ref_count) < 2 {
+            // Unlike `strong_count`, this synchronises with whoever dropped the other locks
+            if Arc::get_mut(&mut self.ref_count).is_some() {
                 self.locked = false;
                 true
             } else {
-- 
2.43.0


From 7a1cd9fe67731fa93014bfcf2ec922b9effe3010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 15/49] fix: keep the address family of a path out of the bits
 of its transport

---
 core/src/messaging/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 9b8d782..31834d5 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -32,7 +32,7 @@ pub enum PathType {
 }
 
 impl BitField for AddressType {
-    const POS: usize = 2;
+    const POS: usize = 5;
     const WIDTH: usize = 2;
 }
 
-- 
2.43.0


From 5e5dd8c35fa1758a98cf99186ef0174a8627354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 16/49] fix: write the IPv6 address of a path the way it is
 parsed

---
 core/src/actors/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index 7192ede..b2ff820 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -200,7 +200,7 @@ impl SystemPath {
 
 impl fmt::Display for SystemPath {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}://{}:{}", self.protocol, self.address, self.port)
+        write!(fmt, "{}://{}", self.protocol, self.socket_address())
     }
 }
 
-- 
2.43.0


From cd397c7de8cc6136a955dbf519f75a9d03a243db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 17/49] fix: check the length and the encoding of received
 paths

---
 core/src/messaging/framing.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 31834d5..be4c6dc 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -279,7 +279,7 @@ fn system_path_put_into_buf(path: &SystemPath, buf: &mut dyn BufMut) -> () {
 #[inline(always)]
 fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPath), SerError> {
     // Deserialize system path
-    let fields: u8 = buf.get_u8();
+    let fields: u8 = buf.try_get_u8().map_err(SerError::from_debug)?;
     let header = SystemPathHeader::try_from(fields)?;
     let address: IpAddr = match header.address_type {
         AddressType::IPv4 => {
@@ -305,10 +305,10 @@ fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPa
             }
         }
         AddressType::Domain => {
-            unimplemented!();
+            return Err(SerError::invalid_type("Unsupported AddressType"));
         }
     };
-    let port = buf.get_u16();
+    let port = buf.try_get_u16().map_err(SerError::from_debug)?;
     let system_path = SystemPath::new(header.protocol, address, port);
     Ok((header, system_path))
 }
@@ -399,7 +399,7 @@ impl Deserialiser<ActorPath> for ActorPath {
                 }
             }
             PathType::Named => {
-                let name_len = buf.get_u16() as usize;
+                let name_len = buf.try_get_u16().map_err(SerError::from_debug)? as usize;
                 if buf.remaining() < name_len {
                     return Err(SerError::invalid_data(format!(
                         "Could not get {} bytes for path name",
@@ -408,21 +408,16 @@ impl Deserialiser<ActorPath> for ActorPath {
                 } else {
                     let mut name_bytes = vec![0u8; name_len];
                     buf.copy_to_slice(&mut name_bytes);
-                    let name = unsafe {
-                        // Paths are serialised by Kompact itself and transported with the normal
-                        // networking integrity checks in place, so we keep the unchecked decode on
-                        // this hot path.
-                        String::from_utf8_unchecked(name_bytes)
-                    };
-                    let parts: Vec<&str> = name.split('/').collect();
-                    if parts.is_empty() {
-                        return Err(SerError::invalid_data(
-                            "Could not determine name for Named path type",
-                        ));
+                    let name = String::from_utf8(name_bytes).map_err(SerError::from_debug)?;
+                    let path = if name.is_empty() {
+                        Vec::new()
                     } else {
-                        let path = parts.into_iter().map(|s| s.to_string()).collect();
-                        ActorPath::Named(NamedPath::with_system(system_path, path))
-                    }
+                        name.split('/').map(|s| s.to_string()).collect()
+                    };
+                    let named_path = system_path
+                        .into_named_with_vec(path)
+                        .map_err(SerError::from_debug)?;
+                    ActorPath::Named(named_path)
                 }
             }
         };
-- 
2.43.0


From 7623757cd9cd5fd1169447997cfd2510ead79a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 18/49] fix: reject malformed session frames and accept empty
 ones without panicking

---
 core/src/net/buffers/decode_buffer.rs |  3 ++
 core/src/net/frames.rs                | 40 ++++++++++++++-------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index aca9775..18c12df 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -147,6 +147,9 @@ impl DecodeBuffer {
 
     /// Extracts a ChunkLease from the readable portion of the buffer (including the chain)
     fn read_chunk_lease(&mut self, length: usize) -> ChunkLease {
+        if length == 0 {
+            return ChunkLease::empty();
+        }
         if let Some(mut chain_head) = self.chain_head.take() {
             match chain_head.remaining().cmp(&length) {
                 Ordering::Greater => {
diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index eb526b9..85dbfb5 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -1,7 +1,7 @@
 //! Frames are the core of the message transport layer, allowing applications to build
 //! custom protocols atop this library.
 
-use bytes::{Buf, BufMut};
+use bytes::{Buf, BufMut, TryGetError};
 
 //use bytes::IntoBuf;
 use std::{self, fmt::Debug, io};
@@ -43,6 +43,12 @@ impl From<std::io::Error> for FramingError {
     }
 }
 
+impl From<TryGetError> for FramingError {
+    fn from(_: TryGetError) -> Self {
+        FramingError::InvalidFrame
+    }
+}
+
 impl From<FramingError> for std::io::Error {
     fn from(_: FramingError) -> Self {
         io::Error::new(io::ErrorKind::InvalidData, "framing error")
@@ -300,22 +306,20 @@ impl FrameExt for Data {
 
 impl FrameExt for Hello {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
+        match src.try_get_u8()? {
             4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
+                let ip = Ipv4Addr::from(src.try_get_u32()?);
+                let port = src.try_get_u16()?;
                 let addr = SocketAddr::new(IpAddr::V4(ip), port);
                 Ok(Frame::Hello(Hello::new(addr)))
             }
             6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
+                let ip = Ipv6Addr::from(src.try_get_u128()?);
+                let port = src.try_get_u16()?;
                 let addr = SocketAddr::new(IpAddr::V6(ip), port);
                 Ok(Frame::Hello(Hello::new(addr)))
             }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
+            _ => Err(FramingError::InvalidFrame),
         }
     }
 
@@ -350,24 +354,22 @@ impl FrameExt for Hello {
 
 impl FrameExt for Start {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
+        match src.try_get_u8()? {
             4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
+                let ip = Ipv4Addr::from(src.try_get_u32()?);
+                let port = src.try_get_u16()?;
                 let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
+                let id = SessionId::from_u128(src.try_get_u128()?);
                 Ok(Frame::Start(Start::new(addr, id)))
             }
             6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
+                let ip = Ipv6Addr::from(src.try_get_u128()?);
+                let port = src.try_get_u16()?;
                 let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
+                let id = SessionId::from_u128(src.try_get_u128()?);
                 Ok(Frame::Start(Start::new(addr, id)))
             }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
+            _ => Err(FramingError::InvalidFrame),
         }
     }
 
-- 
2.43.0


From f0a72442d386310e15aca89b59bf4ff9231edeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 19/49] fix: report messages with a malformed header instead of
 panicking

---
 core/src/messaging/dispatch.rs          |  6 +++---
 core/src/serialisation/ser_helpers.rs   | 16 ++++++++++++----
 network/src/transport/network_thread.rs | 12 +++++++++---
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/core/src/messaging/dispatch.rs b/core/src/messaging/dispatch.rs
index daf6aff..293b840 100644
--- a/core/src/messaging/dispatch.rs
+++ b/core/src/messaging/dispatch.rs
@@ -29,18 +29,18 @@ impl DispatchData {
                 // The chunk contains the full frame, deserialize_msg does not deserialize FrameHead so we advance the read_pointer first
                 chunk_lease.advance(FRAME_HEAD_LEN as usize);
                 //println!("to_local (from: {:?}; to: {:?})", src, dst);
-                Ok(deserialise_chunk_lease(chunk_lease).expect("s11n errors"))
+                deserialise_chunk_lease(chunk_lease)
             }
             DispatchData::Serialised(SerialisedFrame::ChunkRef(mut chunk_ref)) => {
                 // The chunk contains the full frame, deserialize_msg does not deserialize FrameHead so we advance the read_pointer first
                 chunk_ref.advance(FRAME_HEAD_LEN as usize);
                 //println!("to_local (from: {:?}; to: {:?})", src, dst);
-                Ok(deserialise_chunk_ref(chunk_ref).expect("s11n errors"))
+                deserialise_chunk_ref(chunk_ref)
             }
             DispatchData::Serialised(SerialisedFrame::Bytes(mut bytes)) => {
                 bytes.advance(FRAME_HEAD_LEN as usize);
                 //println!("to_local (from: {:?}; to: {:?})", src, dst);
-                Ok(deserialise_bytes(bytes).expect("s11n errors"))
+                deserialise_bytes(bytes)
             }
             DispatchData::NetMessage(net_message) => Ok(net_message),
         }
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 7120507..95d9999 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -11,7 +11,7 @@ use crate::{
     },
     serialisation::*,
 };
-use bytes::{Bytes, BytesMut, buf::BufMut};
+use bytes::{Buf, Bytes, BytesMut, buf::BufMut};
 
 /// Creates a new [NetMessage](NetMessage) from the provided fields
 ///
@@ -230,6 +230,14 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
     })
 }
 
+/// Reads a serialisation id, if there are enough bytes left for one
+fn try_get_ser_id<B: Buf>(buffer: &mut B) -> Result<SerId, SerError> {
+    if buffer.remaining() < std::mem::size_of::<SerId>() {
+        return Err(SerError::invalid_data("Missing serialisation id"));
+    }
+    Ok(buffer.get_ser_id())
+}
+
 /// Extracts a [NetMessage](NetMessage) from the provided buffer
 ///
 /// This expects the format from [serialise_msg](serialise_msg).
@@ -241,7 +249,7 @@ pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, Ser
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer.into_chunk_ref());
 
@@ -259,7 +267,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer);
 
@@ -272,7 +280,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 pub fn deserialise_bytes(mut buffer: Bytes) -> Result<NetMessage, SerError> {
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_bytes(ser_id, src, dst, buffer);
 
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b743632..029b5a5 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -557,9 +557,15 @@ impl NetworkThread {
 
     fn handle_data_frame(&self, data: Data, session: SessionId) {
         let buf = data.payload();
-        let mut envelope = deserialise_chunk_lease(buf).expect("s11n errors");
-        envelope.set_session(session);
-        self.deliver_net_message(envelope);
+        match deserialise_chunk_lease(buf) {
+            Ok(mut envelope) => {
+                envelope.set_session(session);
+                self.deliver_net_message(envelope);
+            }
+            Err(e) => {
+                warn!(self.log, "Could not deserialise a received message: {}", e);
+            }
+        }
     }
 
     fn deliver_net_message(&self, envelope: NetMessage) {
-- 
2.43.0


From a77be32295b1233fe0a3fabe3536c5b326b05569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 20/49] fix: encode a data frame completely and once

---
 core/src/net/frames.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index 85dbfb5..bc51930 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -274,7 +274,7 @@ impl Data {
     }
 
     pub(crate) fn encoded_len(&self) -> usize {
-        self.payload.capacity()
+        self.payload.remaining()
     }
 
     /// Consumes this frame and returns the raw payload buffer
@@ -294,13 +294,16 @@ impl FrameExt for Data {
         // NOTE: This method _COPIES_ the owned bytes into `dst` rather than extending with the owned bytes
         assert!(dst.remaining_mut() >= (self.encoded_len()));
         while self.payload.has_remaining() {
-            dst.put_slice(self.payload.chunk());
+            let chunk = self.payload.chunk();
+            let len = chunk.len();
+            dst.put_slice(chunk);
+            self.payload.advance(len);
         }
         Ok(())
     }
 
     fn encoded_len(&self) -> usize {
-        self.payload.chunk().len()
+        self.payload.remaining()
     }
 }
 
-- 
2.43.0


From 4475805243686fc451541d3a73ea849311f2dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 21/49] fix: give actor paths and strings different
 serialisation ids

---
 core/src/serialisation/default_serialisers.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 2900c58..701b463 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -19,14 +19,13 @@ pub mod serialisation_ids {
 
     /// Id for a `NamedPath`.
     pub const NAMED_PATH: SerId = 3;
-    //pub const SYSTEM_PATH_HEADER: SerId = 4; // this one is freed now...reuse in th future!
+
+    /// Id for an [ActorPath](crate::prelude::ActorPath).
+    pub const ACTOR_PATH: SerId = 4;
 
     /// Id for a `SystemPath`.
     pub const SYSTEM_PATH: SerId = 5;
 
-    /// Id for an [ActorPath](crate::prelude::ActorPath).
-    pub const ACTOR_PATH: SerId = 6;
-
     /// Id for a `String` serialiser.
     pub const STR: SerId = 6;
 
-- 
2.43.0


From 76524a280c71fc273c85b2436f1efd209eb5457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 22/49] fix: report truncated built-in values instead of
 panicking

---
 core/src/serialisation/default_serialisers.rs |  7 +++-
 core/src/serialisation/serde_serialisers.rs   | 40 +++++++++++--------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 701b463..16d9110 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -75,8 +75,11 @@ impl Deserialiser<String> for String {
     const SER_ID: SerId = serialisation_ids::STR;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<String, SerError> {
-        let len_u64 = buf.get_u64();
+        let len_u64 = buf.try_get_u64().map_err(SerError::from_debug)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
+        if buf.remaining() < len {
+            return Err(SerError::invalid_data("String exceeds its buffer"));
+        }
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different String serde implementation, that fulfills them
         let mut data: Vec<u8> = vec![0; len];
@@ -108,7 +111,7 @@ impl Deserialiser<u64> for u64 {
     const SER_ID: SerId = serialisation_ids::U64;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<u64, SerError> {
-        let num = buf.get_u64();
+        let num = buf.try_get_u64().map_err(SerError::from_debug)?;
         Ok(num)
     }
 }
diff --git a/core/src/serialisation/serde_serialisers.rs b/core/src/serialisation/serde_serialisers.rs
index a8ae4f4..511fac2 100644
--- a/core/src/serialisation/serde_serialisers.rs
+++ b/core/src/serialisation/serde_serialisers.rs
@@ -490,7 +490,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(SerError::from_debug)?;
         let v = num != 0u8; // treat everything except 0 as true
         visitor.visit_bool(v)
     }
@@ -499,7 +499,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i8();
+        let num = self.buffer.try_get_i8().map_err(SerError::from_debug)?;
         visitor.visit_i8(num)
     }
 
@@ -507,7 +507,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i16();
+        let num = self.buffer.try_get_i16().map_err(SerError::from_debug)?;
         visitor.visit_i16(num)
     }
 
@@ -515,7 +515,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i32();
+        let num = self.buffer.try_get_i32().map_err(SerError::from_debug)?;
         visitor.visit_i32(num)
     }
 
@@ -523,7 +523,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i64();
+        let num = self.buffer.try_get_i64().map_err(SerError::from_debug)?;
         visitor.visit_i64(num)
     }
 
@@ -531,7 +531,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(SerError::from_debug)?;
         visitor.visit_u8(num)
     }
 
@@ -539,7 +539,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u16();
+        let num = self.buffer.try_get_u16().map_err(SerError::from_debug)?;
         visitor.visit_u16(num)
     }
 
@@ -547,7 +547,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.buffer.try_get_u32().map_err(SerError::from_debug)?;
         visitor.visit_u32(num)
     }
 
@@ -555,7 +555,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u64();
+        let num = self.buffer.try_get_u64().map_err(SerError::from_debug)?;
         visitor.visit_u64(num)
     }
 
@@ -563,7 +563,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f32();
+        let num = self.buffer.try_get_f32().map_err(SerError::from_debug)?;
         visitor.visit_f32(num)
     }
 
@@ -571,7 +571,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f64();
+        let num = self.buffer.try_get_f64().map_err(SerError::from_debug)?;
         visitor.visit_f64(num)
     }
 
@@ -579,7 +579,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.buffer.try_get_u32().map_err(SerError::from_debug)?;
         let v = std::char::from_u32(num).ok_or_else(|| {
             SerError::unknown(format!("Number {} does not represent a valid char!", num))
         })?;
@@ -599,10 +599,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(SerError::from_debug)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different String serde implementation, that fulfills them
+        if self.buffer.remaining() < len {
+            return Err(SerError::invalid_data("Data exceeds its buffer"));
+        }
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
         let s = String::from_utf8(data).map_err(SerError::from_debug)?;
@@ -621,10 +624,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(SerError::from_debug)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different serde implementation, that fulfills them
+        if self.buffer.remaining() < len {
+            return Err(SerError::invalid_data("Data exceeds its buffer"));
+        }
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
         visitor.visit_byte_buf(data)
@@ -634,7 +640,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(SerError::from_debug)?;
         if num == 0 {
             visitor.visit_none()
         } else {
@@ -683,7 +689,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(SerError::from_debug)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_seq(self.counting(len))
     }
@@ -717,7 +723,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(SerError::from_debug)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_map(self.counting(len))
     }
-- 
2.43.0


From 6fcf371ba062452d3e6fecb96b2cb59d031a3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:38 +0000
Subject: [PATCH 23/49] fix: leave out the bytes already read when a message is
 forwarded

---
 core/src/serialisation/ser_helpers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 95d9999..cf3e27f 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -190,11 +190,13 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
             buf.put(bytes);
         }
         HeapOrSer::ChunkLease(chunk_lease) => {
+            // This drops what has already been read from the lease
+            let content = chunk_lease.into_chunk_ref();
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + content.capacity();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
-                let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_lease.into_chunk_ref());
+                let chunk_ref = header_lease.into_chunk_ref_with_tail(content);
                 assert_eq!(
                     chunk_ref.capacity(),
                     frame_len + FRAME_HEAD_LEN as usize,
@@ -203,6 +205,11 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
                 chunk_ref
             });
         }
+        HeapOrSer::ChunkRef(chunk_ref) if chunk_ref.remaining() < chunk_ref.capacity() => {
+            // Part of the chunk has already been read (e.g., the headers of a message that was
+            // delivered locally), so it can't be chained as a whole
+            buf.put(chunk_ref);
+        }
         HeapOrSer::ChunkRef(chunk_ref) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-- 
2.43.0


From e3e2eb13d8ba3131057ec973fa24b68694924003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 24/49] fix: report an error instead of panicking when a
 message claims to be a Never

---
 core/src/serialisation/default_serialisers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 16d9110..002f5fd 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -46,7 +46,10 @@ impl Deserialiser<Never> for Never {
     const SER_ID: SerId = serialisation_ids::UNKNOWN;
 
     fn deserialise(_buf: &mut dyn Buf) -> Result<Never, SerError> {
-        unreachable!("Can't instantiate Never type, so can't deserialise it either");
+        // A serialisation id of 0 may well come in from the network.
+        Err(SerError::invalid_type(
+            "Can't instantiate Never type, so can't deserialise it either",
+        ))
     }
 }
 
-- 
2.43.0


From 58b0b88ce47fae4a4cf414ec9e6a1ad476907d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 25/49] fix: let a SystemPath be delivered locally

---
 core/src/messaging/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index be4c6dc..e1d738a 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -263,7 +263,7 @@ impl Serialisable for SystemPath {
     }
 
     fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
-        unimplemented!()
+        Ok(self)
     }
 }
 
-- 
2.43.0


From 942e450b94c64b8bfd1a99cf76e65bbe8702a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:00 +0000
Subject: [PATCH 26/49] fix: do not panic when routing to a group without
 members

---
 core/src/routing/groups.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/routing/groups.rs b/core/src/routing/groups.rs
index 0775d09..30f747c 100644
--- a/core/src/routing/groups.rs
+++ b/core/src/routing/groups.rs
@@ -141,6 +141,10 @@ impl Default for RoundRobinRouting {
 }
 impl RoutingPolicy<DynActorRef, NetMessage> for RoundRobinRouting {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(logger, "Dropping msg, as the group has no members: {:?}", msg);
+            return;
+        }
         let index = self.get_and_increment_index(members.len());
         trace!(logger, "Routing msg to member at index={}", index);
         members[index].tell(msg);
@@ -242,6 +246,10 @@ impl<H: BuildHasher + Clone + Send + Sync + 'static> RoutingPolicy<DynActorRef,
     for SenderHashBucketRouting<H>
 {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(logger, "Dropping msg, as the group has no members: {:?}", msg);
+            return;
+        }
         let index = self.get_bucket(&msg, members.len());
         trace!(
             logger,
-- 
2.43.0


From 44d2d0f3b727a9d14f3cd08c6899846962186c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:00 +0000
Subject: [PATCH 27/49] fix: refuse to store an actor under a path that can
 never be looked up

---
 core/src/dispatch/lookup/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/dispatch/lookup/mod.rs b/core/src/dispatch/lookup/mod.rs
index cd958c3..30e5290 100644
--- a/core/src/dispatch/lookup/mod.rs
+++ b/core/src/dispatch/lookup/mod.rs
@@ -216,6 +216,7 @@ impl ActorLookup for ActorStore {
                 }
                 ActorPath::Named(np) => {
                     let keys = np.into_path();
+                    crate::actors::validate_insert_path(&keys)?;
                     let prev = self.name_map.insert_owned(keys, ActorTreeEntry::Ref(actor));
                     Ok(prev.into())
                 }
-- 
2.43.0


From aed182178a618e28ab9fb4fbf9de78a73c178b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:40 +0000
Subject: [PATCH 28/49] fix: refuse path segments that merely contain a marker
 character

---
 core/src/actors/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index b2ff820..c7e9f2c 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -719,10 +719,10 @@ pub(crate) fn validate_lookup_path_segment(
     for c in segment.chars() {
         match c {
             PATH_SEP => return Err(PathParseError::IllegalCharacter(PATH_SEP)),
-            BROADCAST_MARKER if !is_last && len == 1 => {
+            BROADCAST_MARKER if !is_last || len > 1 => {
                 return Err(PathParseError::IllegalCharacter(BROADCAST_MARKER));
             }
-            SELECT_MARKER if !is_last && len == 1 => {
+            SELECT_MARKER if !is_last || len > 1 => {
                 return Err(PathParseError::IllegalCharacter(SELECT_MARKER));
             }
             UNIQUE_PATH_SEP => return Err(PathParseError::IllegalCharacter(UNIQUE_PATH_SEP)),
-- 
2.43.0


From 1ec55a8e13aab16c097b23a0baaa1e08e850f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 29/49] fix: do not crash the dispatcher when a request to the
 network thread fails

---
 network/src/dispatcher.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index d3ab418..692a4e2 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -474,7 +474,9 @@ impl NetworkDispatcher {
                         retry,
                         self.cfg.max_connection_retry_attempts
                     );
-                    bridge.connect(Transport::Tcp, addr).unwrap();
+                    if let Err(e) = bridge.connect(Transport::Tcp, addr) {
+                        error!(self.ctx.log(), "Bridge error while reconnecting {:?}", e);
+                    }
                 }
             } else {
                 // Too many retries, give up on the connection.
@@ -706,7 +708,9 @@ impl NetworkDispatcher {
                 if let Some(ref mut bridge) = self.net_bridge {
                     debug!(self.ctx.log(), "Establishing new connection to {:?}", addr);
                     self.retry_map.insert(addr, 0); // Make sure we will re-request connection later
-                    bridge.connect(Transport::Tcp, addr).unwrap();
+                    if let Err(e) = bridge.connect(Transport::Tcp, addr) {
+                        error!(self.ctx.log(), "Bridge error while connecting {:?}", e);
+                    }
                     Some(ConnectionState::Initializing)
                 } else {
                     error!(self.ctx.log(), "No network bridge found; dropping message");
@@ -1051,54 +1055,59 @@ impl Provide<NetworkStatusPort> for NetworkDispatcher {
             self.ctx.log(),
             "Received NetworkStatusPort Request {:?}", event
         );
+        let mut outcome: Result<(), NetworkBridgeError> = Ok(());
         match event {
             NetworkStatusRequest::DisconnectSystem(system_path) => {
                 self.close_channel(system_path.socket_address());
             }
             NetworkStatusRequest::ConnectSystem(system_path) => {
                 if let Some(bridge) = &self.net_bridge {
-                    bridge
-                        .connect(system_path.protocol(), system_path.socket_address())
-                        .unwrap();
+                    outcome = bridge.connect(system_path.protocol(), system_path.socket_address());
                 }
             }
             NetworkStatusRequest::BlockIp(ip_addr) => {
                 debug!(self.ctx.log(), "Got BlockIp: {:?}", ip_addr);
                 if let Some(bridge) = &self.net_bridge {
-                    bridge.block_ip(ip_addr).unwrap();
+                    outcome = bridge.block_ip(ip_addr);
                 }
             }
             NetworkStatusRequest::BlockSystem(system_path) => {
                 debug!(self.ctx.log(), "Got BlockSystem: {:?}", system_path);
                 if let Some(bridge) = &self.net_bridge {
-                    bridge.block_socket(system_path.socket_address()).unwrap();
+                    outcome = bridge.block_socket(system_path.socket_address());
                 }
             }
             NetworkStatusRequest::BlockIpNet(ip_net) => {
                 debug!(self.ctx.log(), "Got BlockIpNet: {:?}", ip_net);
                 if let Some(bridge) = &self.net_bridge {
-                    bridge.block_ip_net(ip_net).unwrap();
+                    outcome = bridge.block_ip_net(ip_net);
                 }
             }
             NetworkStatusRequest::AllowIp(ip_addr) => {
                 debug!(self.ctx.log(), "Got AllowIp: {:?}", ip_addr);
                 if let Some(bridge) = &self.net_bridge {
-                    bridge.allow_ip(ip_addr).unwrap();
+                    outcome = bridge.allow_ip(ip_addr);
                 }
             }
             NetworkStatusRequest::AllowSystem(system_path) => {
                 debug!(self.ctx.log(), "Got AllowSystem: {:?}", system_path);
                 if let Some(bridge) = &self.net_bridge {
-                    bridge.allow_socket(system_path.socket_address()).unwrap();
+                    outcome = bridge.allow_socket(system_path.socket_address());
                 }
             }
             NetworkStatusRequest::AllowIpNet(ip_net) => {
                 debug!(self.ctx.log(), "Got AllowIpNet: {:?}", ip_net);
                 if let Some(bridge) = &self.net_bridge {
-                    bridge.allow_ip_net(ip_net).unwrap();
+                    outcome = bridge.allow_ip_net(ip_net);
                 }
             }
         }
+        if let Err(e) = outcome {
+            error!(
+                self.ctx.log(),
+                "Bridge error while handling a network status request {:?}", e
+            );
+        }
         Handled::OK
     }
 }
-- 
2.43.0


From a9eef8341391d083cfc3ba0ee42897a963073743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 30/49] fix: keep an open connection when its system is
 explicitly allowed

---
 network/src/dispatcher.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index 692a4e2..ba40b39 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -544,7 +544,10 @@ impl NetworkDispatcher {
                         .trigger(NetworkStatus::BlockedIpNet(ip_net));
                 }
                 NetworkStatus::AllowedSystem(system_path) => {
-                    self.connections.remove(&system_path.socket_address());
+                    let addr = system_path.socket_address();
+                    if let Some(ConnectionState::Blocked) = self.connections.get(&addr) {
+                        self.connections.remove(&addr);
+                    }
                     self.network_status_port
                         .trigger(NetworkStatus::AllowedSystem(system_path));
                 }
-- 
2.43.0


From d671db9b6d1d521ae457dca12ab2c11e2d578417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 31/49] fix: do not retry the connection to a blocked system

---
 network/src/dispatcher.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index ba40b39..90d4d47 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -530,8 +530,9 @@ impl NetworkDispatcher {
                         .trigger(NetworkStatus::ConnectionDropped(system_path));
                 }
                 NetworkStatus::BlockedSystem(system_path) => {
-                    self.connections
-                        .insert(system_path.socket_address(), ConnectionState::Blocked);
+                    let addr = system_path.socket_address();
+                    self.connections.insert(addr, ConnectionState::Blocked);
+                    let _ = self.retry_map.remove(&addr);
                     self.network_status_port
                         .trigger(NetworkStatus::BlockedSystem(system_path));
                 }
@@ -569,6 +570,13 @@ impl NetworkDispatcher {
             },
             NetworkDispatcherEvent::RejectedData((addr, data)) => {
                 // These are messages which we routed to a network-thread before they lost the connection.
+                if let Some(ConnectionState::Blocked) = self.connections.get(&addr) {
+                    warn!(
+                        self.ctx.log(),
+                        "Dropping a message to the blocked system {}.", addr
+                    );
+                    return;
+                }
                 self.queue_manager.enqueue_priority_data(*data, addr);
                 self.retry_map.entry(addr).or_insert(0);
             }
-- 
2.43.0


From 32a73b50ed4479ce8f54339698527450bd907116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 32/49] fix: forget a dropped connection and its queue

---
 network/src/dispatcher.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index 90d4d47..75ccd13 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -525,7 +525,10 @@ impl NetworkDispatcher {
                     self.connection_closed(system_path, session)
                 }
                 NetworkStatus::ConnectionDropped(system_path) => {
-                    let _ = self.retry_map.remove(&system_path.socket_address());
+                    let addr = system_path.socket_address();
+                    let _ = self.retry_map.remove(&addr);
+                    self.queue_manager.drop_queue(&addr);
+                    self.connections.remove(&addr);
                     self.network_status_port
                         .trigger(NetworkStatus::ConnectionDropped(system_path));
                 }
-- 
2.43.0


From b787af2daf90d94b959d83f07fdc2f98ba605d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 33/49] fix: ignore handshake frames and data that do not fit
 the state of their channel

---
 network/src/transport/network_channel.rs | 10 ++---
 network/src/transport/network_thread.rs  | 48 ++++++++++++++++--------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 47f77ea..e2f4e31 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -177,13 +177,17 @@ impl TcpChannel {
         self.address
     }
 
-    pub fn handle_ack(&mut self) {
+    /// Returns the session of the channel if the Ack completed its handshake.
+    pub fn handle_ack(&mut self) -> Option<SessionId> {
         if let ChannelState::Initialised(addr, id) = self.state {
             // An Ack was received. Transition the channel.
             self.stream
                 .set_nodelay(self.nodelay)
                 .expect("set nodelay failed");
             self.state = ChannelState::Connected(addr, id);
+            Some(id)
+        } else {
+            None
         }
     }
 
@@ -222,10 +226,6 @@ impl TcpChannel {
         }
         match self.decode() {
             Ok(Frame::Hello(hello)) => Ok(Some(Frame::Hello(hello))),
-            Ok(Frame::Ack()) => {
-                self.handle_ack();
-                Ok(Some(Frame::Ack()))
-            }
             Ok(Frame::Bye()) => {
                 self.handle_bye();
                 Ok(Some(Frame::Bye()))
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 029b5a5..b043cfd 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -364,14 +364,19 @@ impl NetworkThread {
                     Ok(None) => {
                         return;
                     }
-                    Ok(Some(Frame::Data(data))) => {
-                        self.handle_data_frame(
-                            data,
-                            channel
-                                .session_id()
-                                .expect("Connected Channel must have a SessionId"),
-                        );
-                    }
+                    Ok(Some(Frame::Data(data))) => match channel.state {
+                        ChannelState::Connected(_, session)
+                        | ChannelState::CloseRequested(_, session) => {
+                            self.handle_data_frame(data, session);
+                        }
+                        _ => {
+                            warn!(
+                                self.log,
+                                "Dropping data received on a channel that is not connected: {:?}",
+                                channel
+                            );
+                        }
+                    },
                     Ok(Some(Frame::Start(start))) => {
                         self.handle_start(event, &mut channel, &start);
                         return;
@@ -380,11 +385,15 @@ impl NetworkThread {
                         self.handle_hello(channel.deref_mut(), &hello);
                     }
                     Ok(Some(Frame::Ack())) => {
-                        self.check_soft_connection_limit();
-                        self.notify_network_status(NetworkStatus::ConnectionEstablished(
-                            SystemPath::with_socket(Transport::Tcp, channel.address()),
-                            channel.session_id().unwrap(),
-                        ))
+                        if let Some(session) = channel.handle_ack() {
+                            self.check_soft_connection_limit();
+                            self.notify_network_status(NetworkStatus::ConnectionEstablished(
+                                SystemPath::with_socket(Transport::Tcp, channel.address()),
+                                session,
+                            ))
+                        } else {
+                            warn!(self.log, "Ignoring unexpected Ack on {:?}", channel);
+                        }
                     }
                     Ok(Some(Frame::Bye())) => {
                         self.handle_bye(&mut channel);
@@ -596,7 +605,9 @@ impl NetworkThread {
     }
 
     fn handle_hello(&mut self, channel: &mut TcpChannel, hello: &Hello) {
-        if self.block_list.socket_addr_is_blocked(&hello.addr) {
+        if !matches!(channel.state, ChannelState::Requested(_, _)) {
+            warn!(self.log, "Ignoring unexpected Hello on {:?}", channel);
+        } else if self.block_list.socket_addr_is_blocked(&hello.addr) {
             self.drop_channel(channel);
         } else {
             self.reregister_channel_address(channel.address(), hello.addr);
@@ -613,11 +624,18 @@ impl NetworkThread {
     ///     The connection has already started, in which case this channel must be killed.
     ///     The connection has a known UUID but is not connected: Use the UUID as a tie breaker for which to kill and which to keep.
     fn handle_start(&mut self, event: &EventWithRetries, channel: &mut TcpChannel, start: &Start) {
+        if !matches!(channel.state, ChannelState::Initialising) {
+            warn!(self.log, "Ignoring unexpected Start on {:?}", channel);
+            return;
+        }
         if self.block_list.socket_addr_is_blocked(&start.addr) {
             self.drop_channel(channel);
             return;
         }
-        if let Some(other_channel_rc) = self.get_channel_by_address(&start.addr) {
+        // The peer may name the very address this channel is already registered with
+        if start.addr != channel.address()
+            && let Some(other_channel_rc) = self.get_channel_by_address(&start.addr)
+        {
             let mut other_channel = other_channel_rc.borrow_mut();
             debug!(
                 self.log,
-- 
2.43.0


From b4a830cf367592453557accf22ad98dc589552e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 34/49] fix: do not resend the rest of a partially sent frame
 on another connection

---
 network/src/transport/network_channel.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index e2f4e31..3d9453a 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -59,6 +59,8 @@ impl ChannelState {
 pub(crate) struct TcpChannel {
     stream: TcpStream,
     outbound_queue: VecDeque<SerialisedFrame>,
+    /// A part of the first frame in the `outbound_queue` was already sent
+    partially_sent: bool,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -82,6 +84,7 @@ impl TcpChannel {
         TcpChannel {
             stream,
             outbound_queue: VecDeque::new(),
+            partially_sent: false,
             token,
             address,
             input_buffer,
@@ -195,8 +198,14 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
+    /// Takes all frames of which nothing was sent so far.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
         let mut ret = Vec::new();
+        if self.partially_sent {
+            // What is left of this frame means nothing to anyone without its beginning
+            self.outbound_queue.pop_front();
+            self.partially_sent = false;
+        }
         while let Some(frame) = self.outbound_queue.pop_front() {
             ret.push(frame);
         }
@@ -346,6 +355,7 @@ impl TcpChannel {
             match self.write_serialized(&serialized_frame) {
                 Ok(n) => {
                     sent_bytes += n;
+                    let waiting = self.outbound_queue.len();
                     match &mut serialized_frame {
                         // Split the data and continue sending the rest later if we sent less than the full frame
                         SerialisedFrame::Bytes(bytes) => {
@@ -367,6 +377,8 @@ impl TcpChannel {
                             }
                         }
                     }
+                    let unfinished = self.outbound_queue.len() > waiting;
+                    self.partially_sent = unfinished && (self.partially_sent || n > 0);
                     // Continue looping for the next message
                 }
                 // Would block "errors" are the OS's way of saying that the
-- 
2.43.0


From c2a51b515ce10d598b567b7598fd66b6b1637b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 35/49] fix: do not let one unsendable UDP message block all
 others

---
 network/src/transport/udp_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 8ea914a..512c31b 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -69,9 +69,9 @@ impl UdpState {
                         return Err(err);
                     }
                 }
-                // Other errors we'll consider fatal.
+                // Other errors we'll consider fatal for this frame: sending it again would not help,
+                // but keep all others from being sent.
                 Err(err) => {
-                    self.outbound_queue.push_front((addr, frame));
                     return Err(err);
                 }
             }
-- 
2.43.0


From 70a910fa6be5a357c1b8b03f096ca93375afdbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 36/49] fix: release a channel that is lost before its
 handshake is complete

---
 network/src/transport/network_thread.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b043cfd..23690e3 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -920,6 +920,11 @@ impl NetworkThread {
         self.reject_outbound_for_channel(&mut channel);
         // Try to inform the other end that we're closing the channel
         let _ = channel.send_bye();
+        if channel.session_id().is_none() {
+            // The dispatcher does not know this channel and will not ack its closing
+            self.drop_channel(channel.deref_mut());
+            return;
+        }
         self.deregister_channel(channel.deref_mut());
         channel.shutdown();
     }
-- 
2.43.0


From 58395cf7675246a29b7df2fde64292c67ee64105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 37/49] fix: keep blocking an address that was allowed before
 and the other way around

---
 network/src/transport/network_thread.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 23690e3..1431e0a 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1242,14 +1242,16 @@ impl BlockList {
 
     /// Returns true if the rule-set has been modified
     fn block_socket_addr(&mut self, socket_addr: SocketAddr) -> bool {
-        self.allowed_socket_addr.remove(&socket_addr)
-            || self.blocked_socket_addr.insert(socket_addr)
+        let allowed = self.allowed_socket_addr.remove(&socket_addr);
+        let inserted = self.blocked_socket_addr.insert(socket_addr);
+        allowed || inserted
     }
 
     /// Returns true if the rule-set has been modified
     fn allow_socket_addr(&mut self, socket_addr: &SocketAddr) -> bool {
-        self.blocked_socket_addr.remove(socket_addr)
-            || self.allowed_socket_addr.insert(*socket_addr)
+        let blocked = self.blocked_socket_addr.remove(socket_addr);
+        let inserted = self.allowed_socket_addr.insert(*socket_addr);
+        blocked || inserted
     }
 
     /// Returns true if the IpAddr is fully blocked, i.e. it's Blocked and there's no Allowed SocketAddr with the given IP
-- 
2.43.0


From a989558b4a095d8ecd6eddcabfc3cc0629b1a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 38/49] fix: do not crash the network thread when a connection
 limit is zero

---
 network/src/transport/network_thread.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 1431e0a..6c6affe 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -150,7 +150,7 @@ impl NetworkThreadBuilder {
             address_map: FxHashMap::default(),
             token_map: LruCache::new(
                 NonZeroUsize::new(self.network_config.get_hard_connection_limit() as usize)
-                    .unwrap(),
+                    .unwrap_or(NonZeroUsize::MIN),
             ),
             token: START_TOKEN,
             input_queue: self.input_queue,
@@ -856,14 +856,19 @@ impl NetworkThread {
         if self.token_map.len() > limit && self.count_active_connections() > limit {
             // Find the LRU ACTIVE connection
             for (_, channel) in self.token_map.iter().rev() {
-                if channel.borrow().connected() {
-                    let addr = channel.borrow().address();
+                // The channel being handled right now is borrowed already
+                let Ok(channel) = channel.try_borrow() else {
+                    continue;
+                };
+                if channel.connected() {
+                    let addr = channel.address();
                     warn!(
                         self.log,
                         "Soft Connection Limit exceeded! limit = {}. Closing channel {:?}",
                         self.network_config.get_soft_connection_limit(),
-                        &channel.borrow(),
+                        &channel,
                     );
+                    drop(channel);
                     self.notify_network_status(NetworkStatus::SoftConnectionLimitExceeded);
                     self.close_connection(addr);
                     return;
-- 
2.43.0


From b3c35120f1514c588a72a962a2f2ef9b0653f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 39/49] fix: poll without delay again after a shortage of
 buffers

---
 network/src/transport/network_thread.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 6c6affe..d0b9f33 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -197,6 +197,8 @@ impl NetworkThread {
             self.poll
                 .poll(&mut events, self.get_poll_timeout())
                 .expect("Error when calling Poll");
+            // Set again by the events handled below, if there are still no buffers
+            self.out_of_buffers = false;
 
             for event in events
                 .iter()
-- 
2.43.0


From f065337b4b7b5248413d73f7138ad733009866b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 40/49] fix: do not crash the network thread when polling is
 interrupted

---
 network/src/transport/network_thread.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index d0b9f33..13ba241 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -194,9 +194,10 @@ impl NetworkThread {
         trace!(self.log, "NetworkThread starting");
         let mut events = Events::with_capacity(MAX_POLL_EVENTS);
         loop {
-            self.poll
-                .poll(&mut events, self.get_poll_timeout())
-                .expect("Error when calling Poll");
+            match self.poll.poll(&mut events, self.get_poll_timeout()) {
+                Err(e) if interrupted(&e) => continue,
+                result => result.expect("Error when calling Poll"),
+            }
             // Set again by the events handled below, if there are still no buffers
             self.out_of_buffers = false;
 
-- 
2.43.0


From 934d795278f41e94dcee62833a6c6a7d4dc9d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 41/49] fix: keep accepting connections when refusing one fails

---
 network/src/transport/network_thread.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 13ba241..ef38070 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -794,7 +794,7 @@ impl NetworkThread {
                     self.log,
                     "Rejecting connection request from blocked source: {}", &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                self.refuse_stream(&stream);
             } else if self.check_hard_connection_limit() {
                 warn!(
                     self.log,
@@ -802,7 +802,7 @@ impl NetworkThread {
                 request from {}",
                     &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                self.refuse_stream(&stream);
             } else if let Some(buffer) = self.get_buffer() {
                 trace!(self.log, "Accepting connection from {}", &address);
                 self.store_stream(stream, address, ChannelState::Initialising, buffer);
@@ -813,12 +813,19 @@ impl NetworkThread {
                 request from {}",
                     &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                self.refuse_stream(&stream);
             }
         }
         Ok(())
     }
 
+    /// Failing to refuse one stream must not keep us from accepting others.
+    fn refuse_stream(&self, stream: &TcpStream) {
+        if let Err(e) = stream.shutdown(Shutdown::Both) {
+            debug!(self.log, "Could not shut down a refused stream: {:?}", e);
+        }
+    }
+
     fn store_stream(
         &mut self,
         stream: TcpStream,
-- 
2.43.0


From 3a7996a632e4fef92eebbcd00d707357a095b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:19 +0000
Subject: [PATCH 42/49] fix: stop reading from a channel that was dropped
 because of its Hello

---
 network/src/transport/network_thread.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index ef38070..b47a57d 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -385,7 +385,9 @@ impl NetworkThread {
                         return;
                     }
                     Ok(Some(Frame::Hello(hello))) => {
-                        self.handle_hello(channel.deref_mut(), &hello);
+                        if !self.handle_hello(channel.deref_mut(), &hello) {
+                            return;
+                        }
                     }
                     Ok(Some(Frame::Ack())) => {
                         if let Some(session) = channel.handle_ack() {
@@ -607,15 +609,18 @@ impl NetworkThread {
         }
     }
 
-    fn handle_hello(&mut self, channel: &mut TcpChannel, hello: &Hello) {
+    /// Returns false if the channel was dropped and must not be used any more.
+    fn handle_hello(&mut self, channel: &mut TcpChannel, hello: &Hello) -> bool {
         if !matches!(channel.state, ChannelState::Requested(_, _)) {
             warn!(self.log, "Ignoring unexpected Hello on {:?}", channel);
         } else if self.block_list.socket_addr_is_blocked(&hello.addr) {
             self.drop_channel(channel);
+            return false;
         } else {
             self.reregister_channel_address(channel.address(), hello.addr);
             channel.handle_hello(hello);
         }
+        true
     }
 
     /// During channel initialization the threeway handshake to establish connections culminates with this function
-- 
2.43.0


From a6bd9e5ceeacfe800894b66a1228de2997cb22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:40 +0000
Subject: [PATCH 43/49] fix: return the receive buffer of a channel that a
 reconnect replaces

---
 network/src/transport/network_thread.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b47a57d..469ecce 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -656,6 +656,8 @@ impl NetworkThread {
                         return;
                     } else {
                         self.lost_connection(other_channel);
+                        // This channel takes over its address, so no ClosedAck will find it
+                        self.drop_channel(&mut other_channel_rc.borrow_mut());
                     }
                 }
                 ChannelState::Requested(_, other_id) if other_id.as_u128() > start.id.as_u128() => {
-- 
2.43.0


From a523e1546024403c4662095e2bdd4c55c82ea4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:40 +0000
Subject: [PATCH 44/49] fix: do not resend the control frames of a lost
 connection on another one

---
 core/src/net/frames.rs                   | 13 +++++++++++++
 network/src/transport/network_channel.rs |  9 ++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index bc51930..225b205 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -238,6 +238,19 @@ impl FrameHead {
     }
 }
 
+/// Returns `true` if `bytes` is an encoded frame that only concerns the channel it is sent over
+///
+/// This is the case for all frames except those that carry data.
+pub fn is_control_frame(mut bytes: &[u8]) -> bool {
+    match FrameHead::decode_from(&mut bytes) {
+        Ok(head) => matches!(
+            head.frame_type(),
+            FrameType::Hello | FrameType::Start | FrameType::Ack | FrameType::Bye
+        ),
+        Err(_) => false,
+    }
+}
+
 impl Hello {
     /// Create a new hello message
     pub fn new(addr: SocketAddr) -> Self {
diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 3d9453a..aa78d1f 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -3,7 +3,7 @@ use crate::{
     messaging::SerialisedFrame,
     net::{
         buffers::{BufferChunk, BufferPool, DecodeBuffer},
-        frames::{FRAME_HEAD_LEN, Frame, FramingError, Hello, Start},
+        frames::{FRAME_HEAD_LEN, Frame, FramingError, Hello, Start, is_control_frame},
     },
 };
 use bytes::{Buf, BytesMut};
@@ -198,7 +198,7 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
-    /// Takes all frames of which nothing was sent so far.
+    /// Takes all data frames of which nothing was sent so far.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
         let mut ret = Vec::new();
         if self.partially_sent {
@@ -207,7 +207,10 @@ impl TcpChannel {
             self.partially_sent = false;
         }
         while let Some(frame) = self.outbound_queue.pop_front() {
-            ret.push(frame);
+            // A frame of this channel's handshake or closing means nothing on any other channel
+            if !is_control_frame(frame.bytes()) {
+                ret.push(frame);
+            }
         }
         ret
     }
-- 
2.43.0


From 003cf0e5c9f60ef6b78385c5428c03841af5be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:49 +0000
Subject: [PATCH 45/49] fix: close a channel only after its Bye was sent

---
 network/src/transport/network_channel.rs | 5 +++++
 network/src/transport/network_thread.rs  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index aa78d1f..355392e 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -198,6 +198,11 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
+    /// Whether there is anything left to send on this channel
+    pub fn has_outbound(&self) -> bool {
+        !self.outbound_queue.is_empty()
+    }
+
     /// Takes all data frames of which nothing was sent so far.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
         let mut ret = Vec::new();
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 469ecce..7380143 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -461,6 +461,8 @@ impl NetworkThread {
                 Err(ref err) if broken_pipe(err) => {
                     self.lost_connection(channel);
                 }
+                // What is left will be sent once the socket is writeable again
+                Ok(_) if channel.has_outbound() => {}
                 Ok(_) => {
                     if let ChannelState::CloseReceived(addr, id) = channel.state {
                         channel.state = ChannelState::Closed(addr, id);
-- 
2.43.0


From 889c90c08c947fcbbfe9c6c43f0347852d71eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:48 +0000
Subject: [PATCH 46/49] fix: do not let a malformed datagram spoil the ones
 after it

---
 core/src/net/buffers/decode_buffer.rs | 7 +++++++
 network/src/transport/udp_state.rs    | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 18c12df..474a93e 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -222,6 +222,13 @@ impl DecodeBuffer {
         Ok(())
     }
 
+    /// Forgets all bytes that were written but not yet read, and the frame they belong to.
+    pub fn discard_unread(&mut self) {
+        self.read_offset = self.write_offset;
+        self.next_frame_head = None;
+        self.chain_head = None;
+    }
+
     /// Extracts the readable portion (if any) from the active buffer as a ChunkLease
     fn get_overflow(&mut self) -> Option<ChunkLease> {
         let length = self.write_offset - self.read_offset;
diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 512c31b..22dd400 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -110,6 +110,8 @@ impl UdpState {
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
                         self.decode_message(addr);
+                        // A datagram that is no proper frame must not become part of the next one
+                        self.input_buffer.discard_unread();
                     }
                     Err(err) if would_block(&err) => {
                         return Ok(());
-- 
2.43.0


From 7bdad86c86462fb9218ff33b4f0c348f1427a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:49 +0000
Subject: [PATCH 47/49] fix: keep reading after an empty datagram

---
 network/src/transport/udp_state.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 22dd400..b4fb74b 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -105,7 +105,6 @@ impl UdpState {
                 match self.socket.recv_from(buf) {
                     Ok((0, addr)) => {
                         debug!(self.logger, "Got empty UDP datagram from {}", addr);
-                        return Ok(());
                     }
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
-- 
2.43.0


From 3aad1e05228fd7f50ad60f5337823085cc18b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:39 +0000
Subject: [PATCH 48/49] fix: do not crash the network thread when a Start is
 read at the last retry

---
 network/src/transport/network_thread.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 7380143..919ffec 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -275,6 +275,12 @@ impl NetworkThread {
         }
     }
 
+    /// There may be more to read even if no further event tells about it.
+    fn enqueue_readable_event(&mut self, token: &Token) {
+        self.retry_queue
+            .push_back(EventWithRetries::readable_with_token(token));
+    }
+
     fn enqueue_writeable_event(&mut self, token: &Token) {
         self.retry_queue
             .push_back(EventWithRetries::writeable_with_token(token));
@@ -636,6 +642,7 @@ impl NetworkThread {
     fn handle_start(&mut self, event: &EventWithRetries, channel: &mut TcpChannel, start: &Start) {
         if !matches!(channel.state, ChannelState::Initialising) {
             warn!(self.log, "Ignoring unexpected Start on {:?}", channel);
+            self.enqueue_readable_event(&event.token);
             return;
         }
         if self.block_list.socket_addr_is_blocked(&start.addr) {
@@ -679,7 +686,7 @@ impl NetworkThread {
         }
         self.reregister_channel_address(channel.address(), start.addr);
         channel.handle_start(start);
-        self.retry_event(event);
+        self.enqueue_readable_event(&event.token);
         self.check_soft_connection_limit();
         self.notify_network_status(NetworkStatus::ConnectionEstablished(
             SystemPath::with_socket(Transport::Tcp, start.addr),
@@ -1176,6 +1183,15 @@ impl EventWithRetries {
         }
     }
 
+    fn readable_with_token(token: &Token) -> EventWithRetries {
+        EventWithRetries {
+            token: *token,
+            readable: true,
+            writeable: false,
+            retries: 0,
+        }
+    }
+
     fn writeable_with_token(token: &Token) -> EventWithRetries {
         EventWithRetries {
             token: *token,
-- 
2.43.0


From 80dd396fafcda18c26083b260fed9166cbfe0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:39 +0000
Subject: [PATCH 49/49] fix: do not overflow the number of retries of an event

---
 network/src/transport/network_thread.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 919ffec..2f27b12 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1206,7 +1206,7 @@ impl EventWithRetries {
             token: self.token,
             readable: self.readable,
             writeable: self.writeable,
-            retries: self.retries + 1,
+            retries: self.retries.saturating_add(1),
         }
     }
 }
-- 
2.43.0

