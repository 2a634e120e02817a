From 94ba212e64780337597a34394d300b473b27774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 01/13] fix: filter and filter_map give the wrong old_index
 when an element moves backwards

---
 src/signal_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 4834620..8a6eeb7 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2067,10 +2067,13 @@ fn poll_filter_map<A, S, F>(indexes: &mut Vec<bool>, mut signal: Pin<&mut S>, cx
                 // TODO unit tests for this
                 VecDiff::Move { old_index, new_index } => {
                     if indexes.remove(old_index) {
+                        // This must be calculated before the value is inserted at its new index
+                        let old_filtered_index = find_index(indexes, old_index);
+
                         indexes.insert(new_index, true);
 
                         Poll::Ready(Some(VecDiff::Move {
-                            old_index: find_index(indexes, old_index),
+                            old_index: old_filtered_index,
                             new_index: find_index(indexes, new_index),
                         }))
 
-- 
2.43.0


From 4fb084e892dfff3412c133f2e018963761013aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 02/13] fix: filter_signal_cloned gives the wrong old_index
 when an element moves backwards

---
 src/signal_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 8a6eeb7..9af4011 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1768,11 +1768,14 @@ impl<A, B, F> SignalVec for FilterSignalCloned<A, B, F>
                             let state = signals.remove(old_index);
                             let exists = state.exists;
 
+                            // This must be calculated before the value is inserted at its new index
+                            let old_filtered_index = Self::find_index(signals, old_index);
+
                             signals.insert(new_index, state);
 
                             if exists {
                                 VecDiff::Move {
-                                    old_index: Self::find_index(signals, old_index),
+                                    old_index: old_filtered_index,
                                     new_index: Self::find_index(signals, new_index),
                                 }
 
-- 
2.43.0


From 0ae27d607be9bfa28f98947fa26a2860326e7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 03/13] fix: is_empty returns Pending without polling its input
 until Pending

---
 src/signal_vec.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 9af4011..2cfe447 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1901,6 +1901,8 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
                     Poll::Ready(new)
 
                 } else {
+                    // The input isn't Pending, so it won't wake the task
+                    cx.waker().wake_by_ref();
                     Poll::Pending
                 }
             },
-- 
2.43.0


From d14f51a49ab2a5cb8197032b96fa21a68bdee0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 04/13] fix: chain returns Pending without polling its inputs
 until Pending

---
 src/signal_vec.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 2cfe447..266f006 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -790,10 +790,11 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_left(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    // Returns Poll::Ready if left had a change (even if that change causes no output)
+    fn process_left(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         match self.left.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Poll::Ready(match change {
                     VecDiff::Replace { values } => {
                         self.process_replace(values, cx)
                     },
@@ -835,14 +836,14 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     VecDiff::Clear {} => {
                         self.process_clear(cx)
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.left.set(None);
-                None
+                Poll::Pending
             },
-            Some(Poll::Pending) => None,
-            None => None,
+            Some(Poll::Pending) => Poll::Pending,
+            None => Poll::Pending,
         }
     }
 
@@ -927,9 +928,18 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_right(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    // Returns Poll::Ready if right had a change (even if that change causes no output)
+    fn process_right(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         let change = self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx));
-        self.process_right_change(change)
+        let is_ready = matches!(change, Some(Poll::Ready(Some(_))));
+        let output = self.process_right_change(change);
+
+        if is_ready {
+            Poll::Ready(output)
+
+        } else {
+            Poll::Pending
+        }
     }
 }
 
@@ -947,18 +957,17 @@ impl<A, B> SignalVec for Chain<A, B>
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_left(cx) {
-                return Poll::Ready(Some(change));
-
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            // If there was a change without any output then it must poll again
+            match this.process_left(cx) {
+                Poll::Ready(Some(change)) => return Poll::Ready(Some(change)),
+                Poll::Ready(None) => continue,
+                Poll::Pending => {},
             }
 
-            if let Some(change) = this.process_right(cx) {
-                return Poll::Ready(Some(change));
-
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            match this.process_right(cx) {
+                Poll::Ready(Some(change)) => return Poll::Ready(Some(change)),
+                Poll::Ready(None) => continue,
+                Poll::Pending => {},
             }
 
             if this.left.is_none() && this.right.is_none() {
-- 
2.43.0


From a8d0b74a0960eed702b07e479d9888536b099e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 05/13] fix: flatten keeps the values of inner SignalVecs which
 were removed, replaced or moved

---
 src/signal_vec.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 266f006..2bfe0fb 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -996,6 +996,18 @@ impl<A> FlattenState<A> where A: SignalVec {
         }
     }
 
+    // The index (in the output) of the first value of `states[index]`
+    fn start_index(states: &[Self], index: usize) -> usize {
+        states[0..index].iter().map(|state| state.len).sum()
+    }
+
+    // Removes all of the values of this state from the output
+    fn remove_values(&self, start: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        for index in (0..self.len).rev() {
+            pending.push(VecDiff::RemoveAt { index: start + index });
+        }
+    }
+
     fn update_len(&mut self, diff: &VecDiff<A::Item>) {
         match diff {
             VecDiff::Replace { values } => {
@@ -1154,20 +1166,39 @@ impl<A> SignalVec for Flatten<A>
                             this.inner.insert(index, FlattenState::new(value));
                         },
                         VecDiff::UpdateAt { index, value } => {
+                            let start = FlattenState::start_index(this.inner, index);
+                            this.inner[index].remove_values(start, &mut pending);
                             this.inner[index] = FlattenState::new(value);
                         },
                         VecDiff::RemoveAt { index } => {
-                            this.inner.remove(index);
+                            let start = FlattenState::start_index(this.inner, index);
+                            this.inner.remove(index).remove_values(start, &mut pending);
                         },
                         VecDiff::Move { old_index, new_index } => {
+                            let old_start = FlattenState::start_index(this.inner, old_index);
                             let value = this.inner.remove(old_index);
+                            let new_start = FlattenState::start_index(this.inner, new_index);
+
+                            if new_start > old_start {
+                                for _ in 0..value.len {
+                                    pending.push(VecDiff::Move { old_index: old_start, new_index: new_start + value.len - 1 });
+                                }
+
+                            } else if new_start < old_start {
+                                for offset in 0..value.len {
+                                    pending.push(VecDiff::Move { old_index: old_start + offset, new_index: new_start + offset });
+                                }
+                            }
+
                             this.inner.insert(new_index, value);
                         },
                         VecDiff::Push { value } => {
                             this.inner.push(FlattenState::new(value));
                         },
                         VecDiff::Pop {} => {
-                            this.inner.pop().unwrap();
+                            let state = this.inner.pop().unwrap();
+                            let start = FlattenState::start_index(this.inner, this.inner.len());
+                            state.remove_values(start, &mut pending);
                         },
                         VecDiff::Clear {} => {
                             this.inner.clear();
-- 
2.43.0


From d9e776197bfc72f905dd04aa79789282a1a89cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 06/13] fix: switch_signal_vec ends with stale values if the
 last inner SignalVec is empty

---
 src/signal/signal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index a86328e..d8fca97 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1728,7 +1728,7 @@ impl<A, B, C> SignalVec for SwitchSignalVec<A, B, C>
                 Some(Poll::Ready(None)) => {
                     signal_vec.set(None);
 
-                    if signal_done {
+                    if signal_done && *len == 0 {
                         Poll::Ready(None)
 
                     } else {
-- 
2.43.0


From abaf508e74d162c9ef6c004721e469055c302015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 07/13] fix: key_cloned polls its input again after it has
 ended

---
 src/signal_map.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/signal_map.rs b/src/signal_map.rs
index edc48d7..8d21741 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -128,7 +128,7 @@ pub trait SignalMapExt: SignalMap {
               Self::Value: Clone,
               Self: Sized {
         MapWatchKeySignal {
-            signal_map: self,
+            signal_map: Some(self),
             watch_key: key,
             first: true,
         }
@@ -395,7 +395,7 @@ impl<A, B, F> SignalMap for MapValueSignal<A, B, F>
 #[derive(Debug)]
 pub struct MapWatchKeySignal<M> where M: SignalMap {
     #[pin]
-    signal_map: M,
+    signal_map: Option<M>,
     watch_key: M::Key,
     first: bool,
 }
@@ -412,8 +412,11 @@ impl<M> Signal for MapWatchKeySignal<M>
         let mut changed: Option<Option<M::Value>> = None;
 
         let is_done = loop {
-            break match signal_map.as_mut().poll_map_change(cx) {
-                Poll::Ready(some) => match some {
+            break match signal_map.as_mut().as_pin_mut().map(|signal_map| signal_map.poll_map_change(cx)) {
+                None => {
+                    true
+                },
+                Some(Poll::Ready(some)) => match some {
                     Some(MapDiff::Replace { entries }) => {
                         changed = Some(
                             entries
@@ -440,10 +443,11 @@ impl<M> Signal for MapWatchKeySignal<M>
                         continue;
                     },
                     None => {
+                        signal_map.set(None);
                         true
                     },
                 },
-                Poll::Pending => {
+                Some(Poll::Pending) => {
                     false
                 },
             }
-- 
2.43.0


From 236010c3ee7d28875dd360e3b14c0a07a3cf4f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 08/13] fix: a MutableSignal can miss a change, the final value
 or the end while it is being polled

---
 src/signal/mutable.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index a05db35..f02a6dc 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -100,20 +100,30 @@ impl<A> MutableSignalState<A> {
     }
 
     fn poll_change<B, F>(&self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A) -> B {
-        if self.waker.is_changed() {
-            let value = {
-                let lock = self.state.lock.read().unwrap();
-                f(&lock.value)
-            };
-            Poll::Ready(Some(value))
+        if !self.waker.is_changed() {
+            // The value might be changed (or the last `Mutable` might be dropped) while
+            // this is running, so it has to check again after it has stored the waker
+            self.waker.set_waker(cx);
 
-        } else if self.state.senders.load(Ordering::SeqCst) == 0 {
-            Poll::Ready(None)
+            // This must be checked before `is_changed`, or else it could miss the final value
+            let has_senders = self.state.senders.load(Ordering::SeqCst) != 0;
 
-        } else {
-            self.waker.set_waker(cx);
-            Poll::Pending
+            if !self.waker.is_changed() {
+                return if has_senders {
+                    Poll::Pending
+
+                } else {
+                    Poll::Ready(None)
+                };
+            }
         }
+
+        let value = {
+            let lock = self.state.lock.read().unwrap();
+            f(&lock.value)
+        };
+
+        Poll::Ready(Some(value))
     }
 }
 
-- 
2.43.0


From 8f8a18cfe27e9617610466725e4119ab68283fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 09/13] fix: Mutable::swap can deadlock

---
 src/signal/mutable.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index f02a6dc..b8a0b17 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -287,9 +287,21 @@ impl<A> Mutable<A> {
     }
 
     pub fn swap(&self, other: &Mutable<A>) {
-        // TODO can this dead lock ?
-        let mut state1 = self.state().lock.write().unwrap();
-        let mut state2 = other.state().lock.write().unwrap();
+        // The same lock cannot be locked twice
+        if Arc::ptr_eq(self.state(), other.state()) {
+            self.state().lock.write().unwrap().notify(true);
+            return;
+        }
+
+        // It always locks in the same order, so that two concurrent swaps cannot deadlock
+        let (first, second) = if Arc::as_ptr(self.state()) < Arc::as_ptr(other.state()) {
+            (self, other)
+        } else {
+            (other, self)
+        };
+
+        let mut state1 = first.state().lock.write().unwrap();
+        let mut state2 = second.state().lock.write().unwrap();
 
         std::mem::swap(&mut state1.value, &mut state2.value);
 
-- 
2.43.0


From 856d5bbec4e4d9e89a1095b0ffc69a31389a5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 10/13] fix: CancelableFuture is not woken if it is cancelled
 while it is being polled

---
 src/future.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 6cbc88a..ae30dc9 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -67,11 +67,21 @@ impl<A, B> Future for CancelableFuture<A, B>
             Poll::Ready(callback())
 
         } else {
-            match future.as_pin_mut().unwrap().poll(cx) {
+            match future.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => {
-                    // TODO is this correct ?
-                    *state.waker.lock().unwrap() = Some(cx.waker().clone());
-                    Poll::Pending
+                    let mut lock = state.waker.lock().unwrap();
+
+                    // It might have been cancelled while the future was being polled
+                    if state.is_cancelled.load(Ordering::SeqCst) {
+                        drop(lock);
+                        future.set(None);
+                        let callback = when_cancelled.take().unwrap();
+                        Poll::Ready(callback())
+
+                    } else {
+                        *lock = Some(cx.waker().clone());
+                        Poll::Pending
+                    }
                 },
                 a => a,
             }
-- 
2.43.0


From 0e968a1d992799bccb3331975a680f70606f566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 11/13] fix: Broadcaster signals can miss a notification of the
 input while they are being polled

---
 src/signal/broadcaster.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 08ac4a8..d9b0411 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -45,6 +45,10 @@ impl BroadcasterNotifier {
     fn is_changed(&self) -> bool {
         self.is_changed.swap(false, Ordering::SeqCst)
     }
+
+    fn needs_poll(&self) -> bool {
+        self.is_changed.load(Ordering::SeqCst)
+    }
 }
 
 impl ArcWake for BroadcasterNotifier {
@@ -83,7 +87,6 @@ impl<A> BroadcasterInnerState<A> where A: Signal {
             let mut changed = false;
 
             loop {
-                // TODO what if it is woken up while polling ?
                 match signal.as_mut().poll_change(cx) {
                     Poll::Ready(Some(value)) => {
                         self.value = Some(value);
@@ -126,10 +129,14 @@ impl<A> BroadcasterSharedState<A> where A: Signal {
     }
 
     fn poll<B, F>(&self, f: F) -> B where F: FnOnce(&BroadcasterInnerState<A>) -> B {
-        if self.notifier.is_changed() {
+        if self.notifier.needs_poll() {
             let mut lock = self.inner.write().unwrap();
 
-            lock.poll_signal();
+            // This must be reset while holding the lock, so that the other child signals
+            // wait for the new value, rather than using the old value
+            if self.notifier.is_changed() {
+                lock.poll_signal();
+            }
 
             f(&lock)
 
@@ -180,6 +187,10 @@ impl<A> BroadcasterState<A> where A: Signal {
     fn poll_change<B, F>(&mut self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A::Item) -> B {
         let BroadcasterState { epoch, waker, shared_state } = self;
 
+        // This must be set before checking for changes, or else it could miss a
+        // notification which happens after (or during) the check
+        waker.set_waker(cx);
+
         shared_state.poll(|state| {
             // Value hasn't changed
             if state.epoch == *epoch {
@@ -187,7 +198,6 @@ impl<A> BroadcasterState<A> where A: Signal {
                     Poll::Ready(None)
 
                 } else {
-                    waker.set_waker(cx);
                     Poll::Pending
                 }
 
-- 
2.43.0


From 9dc6ca101bb373c686a3ab90a38fd23b525fd461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 12/13] fix: channel Receiver can miss a value or the end while
 it is being polled

---
 src/signal/channel.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index cb8d17d..36c7d03 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -123,12 +123,15 @@ impl<A> Signal for Receiver<A> {
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
         match self.inner.value.take() {
             None => {
-                if self.inner.has_senders() {
-                    self.inner.waker.store(Some(cx.waker().clone()));
-                    Poll::Pending
+                // This must be stored before checking again, or else it could miss a notification
+                self.inner.waker.store(Some(cx.waker().clone()));
 
-                } else {
-                    Poll::Ready(None)
+                // This must be checked before the value, or else it could miss the final value
+                let has_senders = self.inner.has_senders();
+
+                match self.inner.value.take() {
+                    None if has_senders => Poll::Pending,
+                    a => Poll::Ready(a),
                 }
             },
 
-- 
2.43.0


From 3458df7aeb318e07c6363c96d5e184d8c40e0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 13/13] fix: channel is broken if it is closed while a Sender
 is being used

---
 src/signal/channel.rs | 79 +++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 30 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 36c7d03..82a14a3 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -1,8 +1,7 @@
 use super::Signal;
 use std::pin::Pin;
 use std::marker::Unpin;
-use std::sync::{Arc, Weak};
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::{Arc, Mutex, Weak};
 use std::task::{Poll, Context, Waker};
 use crate::atomic::AtomicOption;
 
@@ -12,30 +11,62 @@ struct Inner<A> {
     value: AtomicOption<A>,
     // TODO use AtomicWaker ?
     waker: AtomicOption<Waker>,
-    senders: AtomicUsize,
+    // This will be 0 if the channel was closed
+    senders: Mutex<usize>,
 }
 
 impl<A> Inner<A> {
     #[inline]
     fn has_senders(&self) -> bool {
-        // This will be 0 if the channel was closed
-        self.senders.load(Ordering::Acquire) != 0
+        *self.senders.lock().unwrap() != 0
     }
 
+    /// Does nothing if the channel was closed
     #[inline]
     fn add_sender(&self) {
-        self.senders.fetch_add(1, Ordering::AcqRel);
+        let mut senders = self.senders.lock().unwrap();
+
+        if *senders != 0 {
+            *senders += 1;
+        }
     }
 
+    /// Does nothing if the channel was closed
+    ///
     /// Returns `true` if it no longer has any senders
     #[inline]
     fn remove_sender(&self) -> bool {
-        self.senders.fetch_sub(1, Ordering::AcqRel) == 1
+        let mut senders = self.senders.lock().unwrap();
+
+        if *senders != 0 {
+            *senders -= 1;
+            *senders == 0
+
+        } else {
+            false
+        }
     }
 
+    /// Returns `false` if the channel was already closed
     #[inline]
-    fn remove_all_senders(&self) {
-        self.senders.store(0, Ordering::Release);
+    fn remove_all_senders(&self) -> bool {
+        std::mem::replace(&mut *self.senders.lock().unwrap(), 0) != 0
+    }
+
+    /// Does nothing if the channel was closed
+    fn send(&self, value: A) -> Result<(), A> {
+        // This must be locked, so that the value cannot be stored after the channel is closed
+        let senders = self.senders.lock().unwrap();
+
+        if *senders != 0 {
+            let old_value = self.value.swap(Some(value));
+            drop(senders);
+            drop(old_value);
+            Ok(())
+
+        } else {
+            Err(value)
+        }
     }
 
     fn notify(&self) {
@@ -54,14 +85,9 @@ pub struct Sender<A> {
 impl<A> Sender<A> {
     pub fn send(&self, value: A) -> Result<(), A> {
         if let Some(inner) = self.inner.upgrade() {
-            if inner.has_senders() {
-                inner.value.store(Some(value));
-                inner.notify();
-                Ok(())
-
-            } else {
-                Err(value)
-            }
+            inner.send(value)?;
+            inner.notify();
+            Ok(())
 
         } else {
             Err(value)
@@ -70,8 +96,7 @@ impl<A> Sender<A> {
 
     pub fn close(&self) {
         if let Some(inner) = self.inner.upgrade() {
-            if inner.has_senders() {
-                inner.remove_all_senders();
+            if inner.remove_all_senders() {
                 inner.notify();
             }
         }
@@ -81,10 +106,7 @@ impl<A> Sender<A> {
 impl<A> Clone for Sender<A> {
     fn clone(&self) -> Self {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                inner.add_sender();
-            }
+            inner.add_sender();
         }
 
         Self {
@@ -96,12 +118,9 @@ impl<A> Clone for Sender<A> {
 impl<A> Drop for Sender<A> {
     fn drop(&mut self) {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                // If there aren't any more senders...
-                if inner.remove_sender() {
-                    inner.notify();
-                }
+            // If there aren't any more senders...
+            if inner.remove_sender() {
+                inner.notify();
             }
         }
     }
@@ -144,7 +163,7 @@ pub fn channel<A>(initial_value: A) -> (Sender<A>, Receiver<A>) {
     let inner = Arc::new(Inner {
         value: AtomicOption::new(Some(initial_value)),
         waker: AtomicOption::new(None),
-        senders: AtomicUsize::new(1),
+        senders: Mutex::new(1),
     });
 
     let sender = Sender {
-- 
2.43.0

