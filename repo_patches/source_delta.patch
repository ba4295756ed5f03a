From 733ee6a905c53be2e45ccdb629c8fbcabde028bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/15] Schedule hook for the verification harness (cfg
 futures_signals_verif)

---
 src/atomic.rs             |   2 +
 src/future.rs             |   2 +
 src/lib.rs                |   6 +
 src/signal/broadcaster.rs |   2 +
 src/signal/channel.rs     |   2 +
 src/signal/mutable.rs     |   3 +
 src/signal/signal.rs      |   2 +
 src/signal_map.rs         |   4 +
 src/signal_vec.rs         |   4 +
 src/verif.rs              | 282 ++++++++++++++++++++++++++++++++++++++
 10 files changed, 309 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/atomic.rs b/src/atomic.rs
index 0791417..fe5b747 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -1,3 +1,5 @@
+#[cfg(futures_signals_verif)]
+use crate::verif::std;
 use std::sync::atomic::{AtomicPtr, Ordering};
 
 
diff --git a/src/future.rs b/src/future.rs
index 6cbc88a..4bea3fb 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -1,3 +1,5 @@
+#[cfg(futures_signals_verif)]
+use crate::verif::std;
 use std::pin::Pin;
 // TODO use parking_lot ?
 use std::sync::{Arc, Weak, Mutex};
diff --git a/src/lib.rs b/src/lib.rs
index 3a64366..bc82185 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,8 @@
 #![warn(unreachable_pub)]
 // missing_docs
 #![deny(warnings, missing_debug_implementations, macro_use_extern_crate)]
+// futures_signals_verif is only set by the verification harness
+#![allow(unexpected_cfgs)]
 
 ///! It is *very highly* recommended to read the tutorial.
 ///! It explains all of the concepts you will need to use Signals effectively.
@@ -17,6 +19,10 @@ pub mod internal;
 #[doc(hidden)]
 pub use gensym::gensym as __internal_gensym;
 
+#[doc(hidden)]
+#[cfg(futures_signals_verif)]
+pub mod verif;
+
 pub mod signal;
 pub mod signal_vec;
 pub mod signal_map;
diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 08ac4a8..7f182e7 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -1,3 +1,5 @@
+#[cfg(futures_signals_verif)]
+use crate::verif::std;
 use super::Signal;
 use std::pin::Pin;
 use std::marker::Unpin;
diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index cb8d17d..0ad229c 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -1,3 +1,5 @@
+#[cfg(futures_signals_verif)]
+use crate::verif::std;
 use super::Signal;
 use std::pin::Pin;
 use std::marker::Unpin;
diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index a05db35..b2b4f8d 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -1,5 +1,8 @@
 use super::Signal;
+#[cfg(not(futures_signals_verif))]
 use std;
+#[cfg(futures_signals_verif)]
+use crate::verif::std;
 use std::fmt;
 use std::pin::Pin;
 use std::marker::Unpin;
diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index a86328e..cdcfabb 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1,3 +1,5 @@
+#[cfg(futures_signals_verif)]
+use crate::verif::std;
 use std::pin::Pin;
 use std::marker::Unpin;
 use std::future::Future;
diff --git a/src/signal_map.rs b/src/signal_map.rs
index edc48d7..4408c1d 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -1,3 +1,5 @@
+#[cfg(futures_signals_verif)]
+use crate::verif::std;
 use crate::signal::Signal;
 use std::cmp::Ord;
 use std::collections::{BTreeMap, VecDeque};
@@ -509,6 +511,8 @@ impl<A, B, C> Future for ForEach<A, B, C>
 // TODO verify that this is correct
 mod mutable_btree_map {
     use super::{SignalMap, SignalMapExt, MapDiff};
+    #[cfg(futures_signals_verif)]
+    use crate::verif::std;
     use std::pin::Pin;
     use std::marker::Unpin;
     use std::fmt;
diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 4834620..bc352f1 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1,3 +1,5 @@
+#[cfg(futures_signals_verif)]
+use crate::verif::std;
 use std::iter::Sum;
 use std::collections::VecDeque;
 use std::pin::Pin;
@@ -2777,6 +2779,8 @@ impl<S, A, F> SignalVec for DelayRemove<S, A, F>
 // TODO verify that this is correct
 mod mutable_vec {
     use super::{SignalVec, VecDiff};
+    #[cfg(futures_signals_verif)]
+    use crate::verif::std;
     use std::pin::Pin;
     use std::marker::Unpin;
     use std::fmt;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..6b35e42
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,282 @@
+//! Only compiled with `--cfg futures_signals_verif`: a stand-in for `std` whose
+//! locks and atomics report to a per-thread hook before every operation, so that
+//! a test harness can own the interleaving of threads. Without an installed hook
+//! they behave exactly like the originals.
+
+#![allow(missing_debug_implementations, unreachable_pub, dead_code)]
+
+use ::std::cell::RefCell;
+use ::std::rc::Rc;
+
+
+pub trait Hook {
+    /// Called before every lock or atomic operation of this thread.
+    fn operation(&self);
+
+    /// Called whenever a lock cannot be acquired; the lock is tried again afterwards.
+    fn blocked(&self);
+}
+
+::std::thread_local! {
+    static HOOK: RefCell<Option<Rc<dyn Hook>>> = const { RefCell::new(None) };
+}
+
+/// Installs (or removes) the hook of the current thread.
+pub fn set_hook(hook: Option<Rc<dyn Hook>>) {
+    HOOK.with(|cell| {
+        *cell.borrow_mut() = hook;
+    });
+}
+
+fn hook() -> Option<Rc<dyn Hook>> {
+    HOOK.try_with(|cell| cell.borrow().clone()).unwrap_or(None)
+}
+
+fn operation() {
+    if let Some(hook) = hook() {
+        hook.operation();
+    }
+}
+
+
+pub mod std {
+    pub use ::std::*;
+
+    pub mod sync {
+        pub use ::std::sync::*;
+
+        use ::std::fmt;
+        use ::std::ops::{Deref, DerefMut};
+        use super::super::{hook, operation};
+
+        pub struct Mutex<A: ?Sized>(::std::sync::Mutex<A>);
+
+        impl<A> Mutex<A> {
+            pub const fn new(value: A) -> Self {
+                Mutex(::std::sync::Mutex::new(value))
+            }
+
+            pub fn into_inner(self) -> LockResult<A> {
+                self.0.into_inner()
+            }
+        }
+
+        impl<A: ?Sized> Mutex<A> {
+            pub fn lock(&self) -> LockResult<MutexGuard<'_, A>> {
+                if let Some(hook) = hook() {
+                    hook.operation();
+
+                    loop {
+                        match self.0.try_lock() {
+                            Ok(guard) => return Ok(guard),
+                            Err(TryLockError::Poisoned(error)) => return Err(error),
+                            Err(TryLockError::WouldBlock) => hook.blocked(),
+                        }
+                    }
+
+                } else {
+                    self.0.lock()
+                }
+            }
+
+            pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, A>> {
+                operation();
+                self.0.try_lock()
+            }
+        }
+
+        impl<A: ?Sized> Deref for Mutex<A> {
+            type Target = ::std::sync::Mutex<A>;
+            fn deref(&self) -> &Self::Target { &self.0 }
+        }
+
+        impl<A: ?Sized> DerefMut for Mutex<A> {
+            fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
+        }
+
+        impl<A: ?Sized + fmt::Debug> fmt::Debug for Mutex<A> {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
+        }
+
+        impl<A: Default> Default for Mutex<A> {
+            fn default() -> Self { Self::new(A::default()) }
+        }
+
+        impl<A> From<A> for Mutex<A> {
+            fn from(value: A) -> Self { Self::new(value) }
+        }
+
+
+        pub struct RwLock<A: ?Sized>(::std::sync::RwLock<A>);
+
+        impl<A> RwLock<A> {
+            pub const fn new(value: A) -> Self {
+                RwLock(::std::sync::RwLock::new(value))
+            }
+
+            pub fn into_inner(self) -> LockResult<A> {
+                self.0.into_inner()
+            }
+        }
+
+        impl<A: ?Sized> RwLock<A> {
+            pub fn read(&self) -> LockResult<RwLockReadGuard<'_, A>> {
+                if let Some(hook) = hook() {
+                    hook.operation();
+
+                    loop {
+                        match self.0.try_read() {
+                            Ok(guard) => return Ok(guard),
+                            Err(TryLockError::Poisoned(error)) => return Err(error),
+                            Err(TryLockError::WouldBlock) => hook.blocked(),
+                        }
+                    }
+
+                } else {
+                    self.0.read()
+                }
+            }
+
+            pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, A>> {
+                if let Some(hook) = hook() {
+                    hook.operation();
+
+                    loop {
+                        match self.0.try_write() {
+                            Ok(guard) => return Ok(guard),
+                            Err(TryLockError::Poisoned(error)) => return Err(error),
+                            Err(TryLockError::WouldBlock) => hook.blocked(),
+                        }
+                    }
+
+                } else {
+                    self.0.write()
+                }
+            }
+
+            pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, A>> {
+                operation();
+                self.0.try_read()
+            }
+
+            pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, A>> {
+                operation();
+                self.0.try_write()
+            }
+        }
+
+        impl<A: ?Sized> Deref for RwLock<A> {
+            type Target = ::std::sync::RwLock<A>;
+            fn deref(&self) -> &Self::Target { &self.0 }
+        }
+
+        impl<A: ?Sized> DerefMut for RwLock<A> {
+            fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
+        }
+
+        impl<A: ?Sized + fmt::Debug> fmt::Debug for RwLock<A> {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
+        }
+
+        impl<A: Default> Default for RwLock<A> {
+            fn default() -> Self { Self::new(A::default()) }
+        }
+
+        impl<A> From<A> for RwLock<A> {
+            fn from(value: A) -> Self { Self::new(value) }
+        }
+
+
+        pub mod atomic {
+            pub use ::std::sync::atomic::*;
+
+            use ::std::fmt;
+            use ::std::ops::{Deref, DerefMut};
+            use super::super::super::operation;
+
+            // Every method which isn't listed here is also reported, because `deref` reports it.
+            macro_rules! atomic {
+                ($name:ident, $value:ty) => {
+                    pub struct $name(::std::sync::atomic::$name);
+
+                    impl $name {
+                        pub const fn new(value: $value) -> Self {
+                            $name(::std::sync::atomic::$name::new(value))
+                        }
+
+                        pub fn into_inner(self) -> $value {
+                            self.0.into_inner()
+                        }
+                    }
+
+                    impl Deref for $name {
+                        type Target = ::std::sync::atomic::$name;
+
+                        fn deref(&self) -> &Self::Target {
+                            operation();
+                            &self.0
+                        }
+                    }
+
+                    impl DerefMut for $name {
+                        fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
+                    }
+
+                    impl fmt::Debug for $name {
+                        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
+                    }
+
+                    impl Default for $name {
+                        fn default() -> Self { Self::new(Default::default()) }
+                    }
+                };
+            }
+
+            atomic!(AtomicBool, bool);
+            atomic!(AtomicUsize, usize);
+            atomic!(AtomicIsize, isize);
+            atomic!(AtomicU8, u8);
+            atomic!(AtomicU16, u16);
+            atomic!(AtomicU32, u32);
+            atomic!(AtomicU64, u64);
+            atomic!(AtomicI8, i8);
+            atomic!(AtomicI16, i16);
+            atomic!(AtomicI32, i32);
+            atomic!(AtomicI64, i64);
+
+
+            pub struct AtomicPtr<A>(::std::sync::atomic::AtomicPtr<A>);
+
+            impl<A> AtomicPtr<A> {
+                pub const fn new(value: *mut A) -> Self {
+                    AtomicPtr(::std::sync::atomic::AtomicPtr::new(value))
+                }
+
+                pub fn into_inner(self) -> *mut A {
+                    self.0.into_inner()
+                }
+            }
+
+            impl<A> Deref for AtomicPtr<A> {
+                type Target = ::std::sync::atomic::AtomicPtr<A>;
+
+                fn deref(&self) -> &Self::Target {
+                    operation();
+                    &self.0
+                }
+            }
+
+            impl<A> DerefMut for AtomicPtr<A> {
+                fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
+            }
+
+            impl<A> fmt::Debug for AtomicPtr<A> {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
+            }
+
+            impl<A> Default for AtomicPtr<A> {
+                fn default() -> Self { Self::new(::std::ptr::null_mut()) }
+            }
+        }
+    }
+}
-- 
2.43.0


From 3cde65837272d42986876baeafdb05b79d6212ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 02/15] fix: filter and filter_map report wrong old index when
 moving a value to the left

---
 src/signal_vec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index bc352f1..c55f74b 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2069,11 +2069,15 @@ fn poll_filter_map<A, S, F>(indexes: &mut Vec<bool>, mut signal: Pin<&mut S>, cx
                 // TODO unit tests for this
                 VecDiff::Move { old_index, new_index } => {
                     if indexes.remove(old_index) {
+                        // These must both be calculated without the moved value
+                        let old_filtered = find_index(indexes, old_index);
+                        let new_filtered = find_index(indexes, new_index);
+
                         indexes.insert(new_index, true);
 
                         Poll::Ready(Some(VecDiff::Move {
-                            old_index: find_index(indexes, old_index),
-                            new_index: find_index(indexes, new_index),
+                            old_index: old_filtered,
+                            new_index: new_filtered,
                         }))
 
                     } else {
-- 
2.43.0


From fbde71d705d6135ab1de0a3902e4b553a9fa508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 03/15] fix: is_empty never ends if the last change happens
 together with the end of the SignalVec

---
 src/signal_vec.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index c55f74b..8e2003a 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1889,16 +1889,20 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
     type Item = bool;
 
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
-        let IsEmptyProj { len, old } = self.project();
+        let IsEmptyProj { mut len, old } = self.project();
 
-        match len.poll_change(cx) {
-            Poll::Ready(Some(len)) => {
-                let new = Some(len == 0);
+        match len.as_mut().poll_change(cx) {
+            Poll::Ready(Some(new_len)) => {
+                let new = Some(new_len == 0);
 
                 if *old != new {
                     *old = new;
                     Poll::Ready(new)
 
+                } else if len.signal.is_none() {
+                    // The SignalVec has ended, so it won't wake us again
+                    Poll::Ready(None)
+
                 } else {
                     Poll::Pending
                 }
-- 
2.43.0


From 47ef6b56f278ac13967f7fb0bd0aae5d48a9ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 04/15] fix: chain stalls when a change of one side doesn't
 cause any output

---
 src/signal_vec.rs | 56 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 8e2003a..51c2c79 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -792,10 +792,11 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_left(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    /// Returns `Ready` if the left side changed (even if that change doesn't cause any output).
+    fn process_left(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         match self.left.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Poll::Ready(match change {
                     VecDiff::Replace { values } => {
                         self.process_replace(values, cx)
                     },
@@ -837,14 +838,14 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     VecDiff::Clear {} => {
                         self.process_clear(cx)
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.left.set(None);
-                None
+                Poll::Pending
             },
-            Some(Poll::Pending) => None,
-            None => None,
+            Some(Poll::Pending) => Poll::Pending,
+            None => Poll::Pending,
         }
     }
 
@@ -929,9 +930,18 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_right(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    /// Returns `Ready` if the right side changed (even if that change doesn't cause any output).
+    fn process_right(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         let change = self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx));
-        self.process_right_change(change)
+        let is_changed = matches!(change, Some(Poll::Ready(Some(_))));
+        let output = self.process_right_change(change);
+
+        if is_changed {
+            Poll::Ready(output)
+
+        } else {
+            Poll::Pending
+        }
     }
 }
 
@@ -949,20 +959,38 @@ impl<A, B> SignalVec for Chain<A, B>
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_left(cx) {
-                return Poll::Ready(Some(change));
+            let mut is_changed = false;
 
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            if let Poll::Ready(change) = this.process_left(cx) {
+                is_changed = true;
+
+                if let Some(change) = change {
+                    return Poll::Ready(Some(change));
+                }
             }
 
-            if let Some(change) = this.process_right(cx) {
+            if let Some(change) = this.pending.pop_front() {
                 return Poll::Ready(Some(change));
+            }
+
+            if let Poll::Ready(change) = this.process_right(cx) {
+                is_changed = true;
 
-            } else if let Some(change) = this.pending.pop_front() {
+                if let Some(change) = change {
+                    return Poll::Ready(Some(change));
+                }
+            }
+
+            if let Some(change) = this.pending.pop_front() {
                 return Poll::Ready(Some(change));
             }
 
+            // The changes didn't cause any output (e.g. replacing nothing with nothing),
+            // so both sides must be polled again, or else they won't wake us
+            if is_changed {
+                continue;
+            }
+
             if this.left.is_none() && this.right.is_none() {
                 return Poll::Ready(None);
 
-- 
2.43.0


From b086ba6a661eeec6006b8ad2b2d0c0d3eb8efe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 05/15] fix: flatten doesn't remove or move the values of the
 inner SignalVecs

---
 src/signal_vec.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 51c2c79..a6a8522 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1061,6 +1061,27 @@ impl<A> FlattenState<A> where A: SignalVec {
         output
     }
 
+    /// Removes all of the values which were output for this inner SignalVec
+    fn remove_values(&self, prev_len: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        for index in (0..self.len).rev() {
+            pending.push(VecDiff::RemoveAt { index: prev_len + index });
+        }
+    }
+
+    /// Moves all of the values which were output for this inner SignalVec
+    fn move_values(&self, old_prev_len: usize, new_prev_len: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        if old_prev_len < new_prev_len {
+            for _ in 0..self.len {
+                pending.push(VecDiff::Move { old_index: old_prev_len, new_index: new_prev_len + (self.len - 1) });
+            }
+
+        } else if new_prev_len < old_prev_len {
+            for index in 0..self.len {
+                pending.push(VecDiff::Move { old_index: old_prev_len + index, new_index: new_prev_len + index });
+            }
+        }
+    }
+
     fn poll_pending(&mut self, cx: &mut Context, prev_len: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) -> bool {
         loop {
             return match self.poll(cx) {
@@ -1150,6 +1171,10 @@ impl<A> SignalVec for Flatten<A>
 
     // TODO implement this more efficiently
     fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<Self::Item>>> {
+        fn prev_len<A>(states: &[FlattenState<A>]) -> usize {
+            states.iter().map(|state| state.len).sum()
+        }
+
         let mut this = self.project();
 
         if let Some(diff) = this.pending.pop_front() {
@@ -1175,20 +1200,28 @@ impl<A> SignalVec for Flatten<A>
                             this.inner.insert(index, FlattenState::new(value));
                         },
                         VecDiff::UpdateAt { index, value } => {
+                            let prev_len = prev_len(&this.inner[..index]);
+                            this.inner[index].remove_values(prev_len, &mut pending);
                             this.inner[index] = FlattenState::new(value);
                         },
                         VecDiff::RemoveAt { index } => {
-                            this.inner.remove(index);
+                            let prev_len = prev_len(&this.inner[..index]);
+                            let state = this.inner.remove(index);
+                            state.remove_values(prev_len, &mut pending);
                         },
                         VecDiff::Move { old_index, new_index } => {
-                            let value = this.inner.remove(old_index);
-                            this.inner.insert(new_index, value);
+                            let old_prev_len = prev_len(&this.inner[..old_index]);
+                            let state = this.inner.remove(old_index);
+                            let new_prev_len = prev_len(&this.inner[..new_index]);
+                            state.move_values(old_prev_len, new_prev_len, &mut pending);
+                            this.inner.insert(new_index, state);
                         },
                         VecDiff::Push { value } => {
                             this.inner.push(FlattenState::new(value));
                         },
                         VecDiff::Pop {} => {
-                            this.inner.pop().unwrap();
+                            let state = this.inner.pop().unwrap();
+                            state.remove_values(prev_len(&this.inner), &mut pending);
                         },
                         VecDiff::Clear {} => {
                             this.inner.clear();
-- 
2.43.0


From 34e10229da76be2bb777c34000a9032fd3f6b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 06/15] fix: filter_signal_cloned reports wrong old index when
 moving a value to the left

---
 src/signal_vec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index a6a8522..ca4c6bc 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1831,12 +1831,16 @@ impl<A, B, F> SignalVec for FilterSignalCloned<A, B, F>
                             let state = signals.remove(old_index);
                             let exists = state.exists;
 
+                            // This must happen before the insert, or else the state will be counted
+                            let old_real_index = Self::find_index(signals, old_index);
+                            let new_real_index = Self::find_index(signals, new_index);
+
                             signals.insert(new_index, state);
 
                             if exists {
                                 VecDiff::Move {
-                                    old_index: Self::find_index(signals, old_index),
-                                    new_index: Self::find_index(signals, new_index),
+                                    old_index: old_real_index,
+                                    new_index: new_real_index,
                                 }
 
                             } else {
-- 
2.43.0


From 6b6518cd7a44a48d2fc3ac4911a08c1be15db8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 07/15] Schedule hook: don't abort on poisoned locks while
 unwinding (cfg futures_signals_verif)

---
 src/verif.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 6b35e42..f836e34 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -49,6 +49,18 @@ pub mod std {
         use ::std::ops::{Deref, DerefMut};
         use super::super::{hook, operation};
 
+        // A thread which is already unwinding isn't aborted by a second panic, so that
+        // the harness can report the first one.
+        fn poisoned<A>(error: PoisonError<A>) -> LockResult<A> {
+            if ::std::thread::panicking() {
+                Ok(error.into_inner())
+
+            } else {
+                Err(error)
+            }
+        }
+
+
         pub struct Mutex<A: ?Sized>(::std::sync::Mutex<A>);
 
         impl<A> Mutex<A> {
@@ -69,7 +81,7 @@ pub mod std {
                     loop {
                         match self.0.try_lock() {
                             Ok(guard) => return Ok(guard),
-                            Err(TryLockError::Poisoned(error)) => return Err(error),
+                            Err(TryLockError::Poisoned(error)) => return poisoned(error),
                             Err(TryLockError::WouldBlock) => hook.blocked(),
                         }
                     }
@@ -127,7 +139,7 @@ pub mod std {
                     loop {
                         match self.0.try_read() {
                             Ok(guard) => return Ok(guard),
-                            Err(TryLockError::Poisoned(error)) => return Err(error),
+                            Err(TryLockError::Poisoned(error)) => return poisoned(error),
                             Err(TryLockError::WouldBlock) => hook.blocked(),
                         }
                     }
@@ -144,7 +156,7 @@ pub mod std {
                     loop {
                         match self.0.try_write() {
                             Ok(guard) => return Ok(guard),
-                            Err(TryLockError::Poisoned(error)) => return Err(error),
+                            Err(TryLockError::Poisoned(error)) => return poisoned(error),
                             Err(TryLockError::WouldBlock) => hook.blocked(),
                         }
                     }
-- 
2.43.0


From 231eeba833ed27e7454879c345a6d5c15235a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 08/15] fix: Mutable::swap dead locks with itself, or when
 swapping in both directions at once

---
 src/signal/mutable.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index b2b4f8d..4fb864f 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -280,9 +280,23 @@ impl<A> Mutable<A> {
     }
 
     pub fn swap(&self, other: &Mutable<A>) {
-        // TODO can this dead lock ?
-        let mut state1 = self.state().lock.write().unwrap();
-        let mut state2 = other.state().lock.write().unwrap();
+        // Locking the same Mutable twice would dead lock
+        if Arc::ptr_eq(self.state(), other.state()) {
+            self.state().lock.write().unwrap().notify(true);
+            return;
+        }
+
+        // This always locks in the same order, so that `a.swap(&b)` and `b.swap(&a)` can't dead lock
+        let (mut state1, mut state2) = if Arc::as_ptr(self.state()) < Arc::as_ptr(other.state()) {
+            let state1 = self.state().lock.write().unwrap();
+            let state2 = other.state().lock.write().unwrap();
+            (state1, state2)
+
+        } else {
+            let state2 = other.state().lock.write().unwrap();
+            let state1 = self.state().lock.write().unwrap();
+            (state1, state2)
+        };
 
         std::mem::swap(&mut state1.value, &mut state2.value);
 
-- 
2.43.0


From b9a48e78c9364c08b8e2665656b5a6ace0c58517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:07 +0000
Subject: [PATCH 09/15] fix: Broadcaster loses changes which happen while it is
 polled

---
 src/signal/broadcaster.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 7f182e7..03b26f4 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -45,6 +45,10 @@ impl BroadcasterNotifier {
     }
 
     fn is_changed(&self) -> bool {
+        self.is_changed.load(Ordering::SeqCst)
+    }
+
+    fn take_changed(&self) -> bool {
         self.is_changed.swap(false, Ordering::SeqCst)
     }
 }
@@ -85,7 +89,6 @@ impl<A> BroadcasterInnerState<A> where A: Signal {
             let mut changed = false;
 
             loop {
-                // TODO what if it is woken up while polling ?
                 match signal.as_mut().poll_change(cx) {
                     Poll::Ready(Some(value)) => {
                         self.value = Some(value);
@@ -131,7 +134,11 @@ impl<A> BroadcasterSharedState<A> where A: Signal {
         if self.notifier.is_changed() {
             let mut lock = self.inner.write().unwrap();
 
-            lock.poll_signal();
+            // This must happen inside of the lock, or else another child
+            // could see the old value without being woken up afterwards
+            if self.notifier.take_changed() {
+                lock.poll_signal();
+            }
 
             f(&lock)
 
@@ -190,6 +197,12 @@ impl<A> BroadcasterState<A> where A: Signal {
 
                 } else {
                     waker.set_waker(cx);
+
+                    // It might have been woken up while polling, before the waker was set
+                    if shared_state.notifier.is_changed() {
+                        waker.wake(false);
+                    }
+
                     Poll::Pending
                 }
 
-- 
2.43.0


From 093f6dd4237615dc5050e952bd7c8b34a8156064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 10/15] fix: switch_signal_vec keeps old values if the new
 SignalVec is empty and ends immediately

---
 src/signal/signal.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index cdcfabb..715ba56 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1730,11 +1730,9 @@ impl<A, B, C> SignalVec for SwitchSignalVec<A, B, C>
                 Some(Poll::Ready(None)) => {
                     signal_vec.set(None);
 
-                    if signal_done {
-                        Poll::Ready(None)
-
-                    } else {
-                        new_signal_vec(len)
+                    match new_signal_vec(len) {
+                        Poll::Pending if signal_done => Poll::Ready(None),
+                        poll => poll,
                     }
                 },
 
-- 
2.43.0


From e0465a8ebd858729d842cdfc098e53327e73dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 11/15] fix: cancelable_future isn't woken up when it is
 cancelled while it is being polled

---
 src/future.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 4bea3fb..71b3f10 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -61,23 +61,27 @@ impl<A, B> Future for CancelableFuture<A, B>
         let CancelableFutureProj { state, mut future, when_cancelled } = self.project();
 
         // TODO is this correct ?
-        if state.is_cancelled.load(Ordering::SeqCst) {
-            // This is necessary in order to prevent the future from calling `waker.wake()` later
-            future.set(None);
-            let callback = when_cancelled.take().unwrap();
-            // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
-            Poll::Ready(callback())
-
-        } else {
-            match future.as_pin_mut().unwrap().poll(cx) {
+        if !state.is_cancelled.load(Ordering::SeqCst) {
+            match future.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => {
-                    // TODO is this correct ?
-                    *state.waker.lock().unwrap() = Some(cx.waker().clone());
-                    Poll::Pending
+                    let mut lock = state.waker.lock().unwrap();
+
+                    // It might have been cancelled while the future was polled, in that case
+                    // nobody would wake up the waker
+                    if !state.is_cancelled.load(Ordering::SeqCst) {
+                        *lock = Some(cx.waker().clone());
+                        return Poll::Pending;
+                    }
                 },
-                a => a,
+                a => return a,
             }
         }
+
+        // This is necessary in order to prevent the future from calling `waker.wake()` later
+        future.set(None);
+        let callback = when_cancelled.take().unwrap();
+        // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
+        Poll::Ready(callback())
     }
 }
 
-- 
2.43.0


From 42bb2c462333a56a3c89592b161c1f0acfbbed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 12/15] fix: signals of Mutable lose the last value or the
 wakeup if another thread changes it during the poll

---
 src/signal/mutable.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index 4fb864f..7ba6f6f 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -102,21 +102,36 @@ impl<A> MutableSignalState<A> {
         }
     }
 
+    #[inline]
+    fn has_senders(&self) -> bool {
+        self.state.senders.load(Ordering::SeqCst) != 0
+    }
+
     fn poll_change<B, F>(&self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A) -> B {
-        if self.waker.is_changed() {
-            let value = {
-                let lock = self.state.lock.read().unwrap();
-                f(&lock.value)
-            };
-            Poll::Ready(Some(value))
+        // This must be checked before `is_changed`, or else the final change could be lost
+        let has_senders = self.has_senders();
 
-        } else if self.state.senders.load(Ordering::SeqCst) == 0 {
-            Poll::Ready(None)
+        if !self.waker.is_changed() {
+            if !has_senders {
+                return Poll::Ready(None);
+            }
 
-        } else {
             self.waker.set_waker(cx);
-            Poll::Pending
+
+            // It might have changed before the waker was set, in that case the waker won't be woken up
+            let has_senders = self.has_senders();
+
+            if !self.waker.is_changed() {
+                return if has_senders { Poll::Pending } else { Poll::Ready(None) };
+            }
         }
+
+        let value = {
+            let lock = self.state.lock.read().unwrap();
+            f(&lock.value)
+        };
+
+        Poll::Ready(Some(value))
     }
 }
 
-- 
2.43.0


From 782d46512501f3449d97894f21aa60bf0c26e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 13/15] fix: Sender can reopen a closed channel if it is cloned
 or dropped while another thread closes it

---
 src/signal/channel.rs | 44 +++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 0ad229c..fbb4c3b 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -24,20 +24,37 @@ impl<A> Inner<A> {
         self.senders.load(Ordering::Acquire) != 0
     }
 
+    /// Changes the number of senders, unless the channel was closed
+    fn update_senders<F>(&self, f: F) -> bool where F: Fn(usize) -> usize {
+        let mut senders = self.senders.load(Ordering::Acquire);
+
+        while senders != 0 {
+            let new_senders = f(senders);
+
+            match self.senders.compare_exchange(senders, new_senders, Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => return new_senders == 0,
+                Err(current) => senders = current,
+            }
+        }
+
+        false
+    }
+
     #[inline]
     fn add_sender(&self) {
-        self.senders.fetch_add(1, Ordering::AcqRel);
+        self.update_senders(|senders| senders + 1);
     }
 
     /// Returns `true` if it no longer has any senders
     #[inline]
     fn remove_sender(&self) -> bool {
-        self.senders.fetch_sub(1, Ordering::AcqRel) == 1
+        self.update_senders(|senders| senders - 1)
     }
 
+    /// Returns `true` if it no longer has any senders
     #[inline]
-    fn remove_all_senders(&self) {
-        self.senders.store(0, Ordering::Release);
+    fn remove_all_senders(&self) -> bool {
+        self.update_senders(|_| 0)
     }
 
     fn notify(&self) {
@@ -72,8 +89,7 @@ impl<A> Sender<A> {
 
     pub fn close(&self) {
         if let Some(inner) = self.inner.upgrade() {
-            if inner.has_senders() {
-                inner.remove_all_senders();
+            if inner.remove_all_senders() {
                 inner.notify();
             }
         }
@@ -83,10 +99,8 @@ impl<A> Sender<A> {
 impl<A> Clone for Sender<A> {
     fn clone(&self) -> Self {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                inner.add_sender();
-            }
+            // This does nothing if the `close` method was called
+            inner.add_sender();
         }
 
         Self {
@@ -98,12 +112,10 @@ impl<A> Clone for Sender<A> {
 impl<A> Drop for Sender<A> {
     fn drop(&mut self) {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                // If there aren't any more senders...
-                if inner.remove_sender() {
-                    inner.notify();
-                }
+            // This does nothing if the `close` method was called
+            // If there aren't any more senders...
+            if inner.remove_sender() {
+                inner.notify();
             }
         }
     }
-- 
2.43.0


From ca2db581a3dfa90ec96613b56077895c7e2b63eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 14/15] fix: Receiver loses the last value or the wakeup if
 another thread sends during the poll

---
 src/signal/channel.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index fbb4c3b..ebcd8d2 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -135,11 +135,21 @@ impl<A> Signal for Receiver<A> {
 
     #[inline]
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        // This must be checked before taking the value, or else the final value could be lost
+        let has_senders = self.inner.has_senders();
+
         match self.inner.value.take() {
             None => {
-                if self.inner.has_senders() {
+                if has_senders {
                     self.inner.waker.store(Some(cx.waker().clone()));
-                    Poll::Pending
+
+                    // It might have changed before the waker was set, in that case the waker won't be woken up
+                    let has_senders = self.inner.has_senders();
+
+                    match self.inner.value.take() {
+                        None => if has_senders { Poll::Pending } else { Poll::Ready(None) },
+                        a => Poll::Ready(a),
+                    }
 
                 } else {
                     Poll::Ready(None)
-- 
2.43.0


From cace00a834d72ca4652eb77571e9e77cd3de1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 15/15] fix: key_cloned polls the SignalMap again after it
 ended

---
 src/signal_map.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/signal_map.rs b/src/signal_map.rs
index 4408c1d..04f5014 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -130,7 +130,7 @@ pub trait SignalMapExt: SignalMap {
               Self::Value: Clone,
               Self: Sized {
         MapWatchKeySignal {
-            signal_map: self,
+            signal_map: Some(self),
             watch_key: key,
             first: true,
         }
@@ -397,7 +397,7 @@ impl<A, B, F> SignalMap for MapValueSignal<A, B, F>
 #[derive(Debug)]
 pub struct MapWatchKeySignal<M> where M: SignalMap {
     #[pin]
-    signal_map: M,
+    signal_map: Option<M>,
     watch_key: M::Key,
     first: bool,
 }
@@ -414,8 +414,11 @@ impl<M> Signal for MapWatchKeySignal<M>
         let mut changed: Option<Option<M::Value>> = None;
 
         let is_done = loop {
-            break match signal_map.as_mut().poll_map_change(cx) {
-                Poll::Ready(some) => match some {
+            break match signal_map.as_mut().as_pin_mut().map(|signal_map| signal_map.poll_map_change(cx)) {
+                None => {
+                    true
+                },
+                Some(Poll::Ready(some)) => match some {
                     Some(MapDiff::Replace { entries }) => {
                         changed = Some(
                             entries
@@ -442,10 +445,11 @@ impl<M> Signal for MapWatchKeySignal<M>
                         continue;
                     },
                     None => {
+                        signal_map.set(None);
                         true
                     },
                 },
-                Poll::Pending => {
+                Some(Poll::Pending) => {
                     false
                 },
             }
-- 
2.43.0

