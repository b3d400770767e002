From 26123106857aa243ca7f15e5bed126f523952461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 01/13] fix: cap the host timeout instead of firing at once for
 sleeps of more than i32::MAX ms

---
 src/timer/global.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 5e183de..3fcc363 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -72,7 +72,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
     } else {
         let _ = set_timeout(
             Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(0),
+            i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
         )
         .unwrap();
     }
@@ -80,7 +80,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
     #[cfg(not(feature = "tokio-test-util"))]
     let _ = set_timeout(
         Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(0),
+        i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
     )
     .unwrap();
 }
-- 
2.43.0


From fb19f7ac9c32b5c00577bb3799c4620f9c112b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 02/13] fix: always leave a host callback pending for the next
 event

---
 src/timer/global.rs | 64 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 3fcc363..c8eda3e 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -20,38 +20,57 @@ use crate::timer::{Timer, TimerHandle};
 pub(crate) fn run() -> TimerHandle {
     let timer = Timer::new();
     let handle = timer.handle();
-    schedule_callback(Arc::new(Mutex::new(timer)), Duration::new(0, 0));
+    let driver = Driver {
+        timer,
+        next_callback: None,
+    };
+    schedule_callback(Arc::new(Mutex::new(driver)), Duration::new(0, 0), None);
     handle
 }
 
+/// The longest delay that `setTimeout` accepts.
+const MAX_DELAY: Duration = Duration::from_millis(i32::MAX as u64);
+
+/// What the callbacks of one timer share.
+struct Driver {
+    timer: Timer,
+    /// Host time at which the earliest pending callback for a next event is due.
+    next_callback: Option<Instant>,
+}
+
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
-/// processes everything.
-fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
+/// processes everything. `due` is the host time of a callback recorded as `next_callback`.
+fn schedule_callback(driver: Arc<Mutex<Driver>>, when: Duration, due: Option<Instant>) {
     let cb = move || {
-        let mut timer_lock = timer.lock();
+        let mut driver_lock = driver.lock();
+        if due.is_some() && driver_lock.next_callback == due {
+            driver_lock.next_callback = None;
+        }
 
         // We start by polling the timer. If any new `Delay` is created, the waker will be used
         // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
         // `schedule_callback` with a delay of `0`.
         let waker = task::waker(Arc::new(Waker {
-            timer: timer.clone(),
+            driver: driver.clone(),
         }));
-        let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
+        let _ = Future::poll(
+            Pin::new(&mut driver_lock.timer),
+            &mut Context::from_waker(&waker),
+        );
 
         // Notify the timers that are ready.
         let now = Instant::now();
-        timer_lock.advance_to(now);
+        driver_lock.timer.advance_to(now);
 
-        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
-        // the possibility for `schedule_callback` to be called in parallel. Since we don't
-        // want too many useless callbacks, we...
-        // TODO: ugh, that's a hack
-        if Arc::strong_count(&timer) > 20 {
+        // A paused clock only moves through `pause`, `resume` and `advance`, which wake us up.
+        #[cfg(feature = "tokio-test-util")]
+        if super::clock::clock().paused() {
             return;
         }
 
         // We call `schedule_callback` again for the next event.
-        let sleep_dur = timer_lock
+        let sleep_dur = driver_lock
+            .timer
             .next_event()
             .map(|next_event| {
                 if next_event > now {
@@ -60,10 +79,19 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
                     Duration::new(0, 0)
                 }
             })
-            .unwrap_or(Duration::from_secs(5));
-        drop(timer_lock);
+            .unwrap_or(Duration::from_secs(5))
+            .min(MAX_DELAY);
+
+        // Each wake-up schedules a callback of its own. Since we don't want too many useless
+        // callbacks, we rely on the pending one if it comes early enough.
+        let next_due = Instant::now_js() + sleep_dur;
+        if matches!(driver_lock.next_callback, Some(pending) if pending <= next_due) {
+            return;
+        }
+        driver_lock.next_callback = Some(next_due);
+        drop(driver_lock);
 
-        schedule_callback(timer, sleep_dur);
+        schedule_callback(driver, sleep_dur, Some(next_due));
     };
 
     #[cfg(feature = "tokio-test-util")]
@@ -86,11 +114,11 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
 }
 
 struct Waker {
-    timer: Arc<Mutex<Timer>>,
+    driver: Arc<Mutex<Driver>>,
 }
 
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
-        schedule_callback(arc_self.timer.clone(), Duration::new(0, 0));
+        schedule_callback(arc_self.driver.clone(), Duration::new(0, 0), None);
     }
 }
-- 
2.43.0


From 1bd49c5e13cb4fb3a9f6e7e671a6b5faaea5c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 03/13] fix: don't panic when a wait ends beyond the
 representable instants

---
 src/tokio/interval.rs | 11 ++++++-----
 src/tokio/sleep.rs    |  9 ++++++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tokio/interval.rs b/src/tokio/interval.rs
index d872e39..f9f5611 100644
--- a/src/tokio/interval.rs
+++ b/src/tokio/interval.rs
@@ -7,6 +7,7 @@ use std::time::Duration;
 use futures::prelude::*;
 
 use crate::std::Instant;
+use crate::tokio::sleep::deadline_after;
 use crate::tokio::Sleep;
 
 /// A stream representing notifications at fixed interval
@@ -67,7 +68,7 @@ impl Interval {
             self.missed_tick_behavior
                 .next_timeout(timeout, now, self.interval)
         } else {
-            timeout + self.interval
+            deadline_after(timeout, self.interval)
         };
 
         Pin::new(&mut self.sleep).reset(next);
@@ -75,7 +76,7 @@ impl Interval {
     }
 
     pub fn reset(&mut self) {
-        Pin::new(&mut self.sleep).reset(Instant::now() + self.interval);
+        Pin::new(&mut self.sleep).reset(deadline_after(Instant::now(), self.interval));
     }
 
     /// Returns the [`MissedTickBehavior`] strategy currently being used.
@@ -106,10 +107,10 @@ impl MissedTickBehavior {
     /// If a tick is missed, this method is called to determine when the next tick should happen.
     fn next_timeout(&self, timeout: Instant, now: Instant, period: Duration) -> Instant {
         match self {
-            Self::Burst => timeout + period,
-            Self::Delay => now + period,
+            Self::Burst => deadline_after(timeout, period),
+            Self::Delay => deadline_after(now, period),
             Self::Skip => {
-                now + period
+                deadline_after(now, period)
                     - Duration::from_nanos(
                         ((now - timeout).as_nanos() % period.as_nanos())
                             .try_into()
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index a54a039..3ebbeb4 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -16,6 +16,13 @@ pub struct Sleep {
     deadline: Instant,
 }
 
+/// The deadline of a wait of `dur` from `start`, about 30 years later if it can't be represented.
+pub(crate) fn deadline_after(start: Instant, dur: Duration) -> Instant {
+    start
+        .checked_add(dur)
+        .unwrap_or_else(|| start + Duration::from_secs(60 * 60 * 24 * 365 * 30))
+}
+
 impl Sleep {
     /// Creates a new future which will fire at `dur` time into the future.
     ///
@@ -23,7 +30,7 @@ impl Sleep {
     /// The default timer will be spun up in a helper thread on first use.
     #[inline]
     pub(crate) fn new(dur: Duration) -> Sleep {
-        Sleep::new_at(Instant::now() + dur)
+        Sleep::new_at(deadline_after(Instant::now(), dur))
     }
 
     /// Creates a new future which will fire at the time specified by `at`.
-- 
2.43.0


From 601affccef4e5649035653e08b88051ac6997411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 04/13] fix: wake the task that waits on a DelayQueue when it
 becomes empty

---
 src/tokio_util/delay_queue.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index cb680a5..9c7b4f6 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -362,6 +362,13 @@ impl<T> DelayQueue<T> {
         self.remove_key(key);
         let data = self.slab.remove(key);
 
+        // The queue has come to its end, which nothing else would tell a pending task.
+        if self.slab.is_empty() {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
+
         let next_deadline = self.next_deadline();
         if prev_deadline != next_deadline {
             match (next_deadline, &mut self.delay) {
@@ -429,6 +436,10 @@ impl<T> DelayQueue<T> {
         self.expired = Stack::default();
         self.wheel = Wheel::new();
         self.delay = None;
+
+        if let Some(waker) = self.waker.take() {
+            waker.wake();
+        }
     }
 
     pub fn capacity(&self) -> usize {
-- 
2.43.0


From 020c001fe9bf850b7122e4c37a9bff5a5c82cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 05/13] fix: wake the task that waits on a DelayQueue when an
 item is reset to a past instant

---
 src/tokio_util/delay_queue.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 9c7b4f6..3a59350 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -405,6 +405,13 @@ impl<T> DelayQueue<T> {
 
         self.insert_idx(when, *key);
 
+        // The delay does not cover items that are ready already.
+        if self.slab[*key].expired {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
+
         let next_deadline = self.next_deadline();
         if let (Some(ref mut delay), Some(deadline)) = (&mut self.delay, next_deadline) {
             // This should awaken us if necessary (ie, if already expired)
-- 
2.43.0


From 882204f5d61493a70cc842bc22ab0fe7b471e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 06/13] fix: accept every allowed delay when the wheel is about
 to start a new rotation

---
 src/tokio_util/wheel/level.rs | 7 ++++++-
 src/tokio_util/wheel/mod.rs   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 6427440..8685f8d 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -140,7 +140,12 @@ impl<T: Stack> Level<T> {
 
         // TODO: This can probably be simplified w/ power of 2 math
         let level_start = now - (now % level_range);
-        let deadline = level_start + slot as u64 * slot_range;
+        let mut deadline = level_start + slot as u64 * slot_range;
+
+        // Only in the top level: the slot belongs to the next rotation.
+        if deadline < now {
+            deadline += level_range;
+        }
 
         debug_assert!(
             deadline >= now,
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 82f59c4..e830c71 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -193,7 +193,12 @@ fn level_for(elapsed: u64, when: u64) -> usize {
 
     // Mask in the trailing bits ignored by the level calculation in order to cap
     // the possible leading zeros
-    let masked = elapsed ^ when | SLOT_MASK;
+    let mut masked = elapsed ^ when | SLOT_MASK;
+
+    // Beyond the current rotation of the top level: its slots act as a ring.
+    if masked > MAX_DURATION {
+        masked = MAX_DURATION;
+    }
 
     let leading_zeros = masked.leading_zeros() as usize;
     let significant = 63 - leading_zeros;
-- 
2.43.0


From e7e50b5d1caa56f9c9aba8ecfec410f3639fde01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 07/13] fix: don't yield DelayQueue items 1 ms early with
 tokio-test-util

---
 src/tokio_util/delay_queue.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 3a59350..a20a4a9 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -487,18 +487,7 @@ impl<T> DelayQueue<T> {
 
                 let now = super::ms(delay.deadline() - self.start, super::Round::Down);
 
-                #[cfg(feature = "tokio-test-util")]
-                {
-                    // +1 here is a tricky way to avoid infinite loop
-                    // in tokio the auto advance feature will always advances time to next time
-                    // event and prevent the infinite loop. But this crate doesn't support auto
-                    // advancing and it will lead this loop to run till infinity.
-                    self.wheel_now = now + 1;
-                }
-                #[cfg(not(feature = "tokio-test-util"))]
-                {
-                    self.wheel_now = now;
-                }
+                self.wheel_now = now;
             }
 
             // We poll the wheel to get the next value out before finding the next deadline.
-- 
2.43.0


From 4ea396168efd62bbcdb6851859fecac74dd3cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 08/13] fix: don't let a sleep reset concurrently with the
 timer fire at its old deadline

The timer read a node's deadline and then its generation, while a reset
bumped the generation and then stored the new deadline. A timer on another
thread could pair the old deadline with the new generation and complete the
sleep early.
---
 src/timer/mod.rs   | 9 ++++++---
 src/tokio/sleep.rs | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/timer/mod.rs b/src/timer/mod.rs
index f2a3f30..9982900 100644
--- a/src/timer/mod.rs
+++ b/src/timer/mod.rs
@@ -374,11 +374,10 @@ impl Timer {
 
     /// Either updates the timer at slot `idx` to fire at `at`, or adds a new
     /// timer at `idx` and sets it to fire at `at`.
-    fn update_or_add(&mut self, at: Instant, node: Arc<Node<ScheduledTimer>>) {
+    fn update_or_add(&mut self, at: Instant, gen: usize, node: Arc<Node<ScheduledTimer>>) {
         // TODO: avoid remove + push and instead just do one sift of the heap?
         // In theory we could update it in place and then do the percolation
         // as necessary
-        let gen = node.state.load(SeqCst) >> 2;
         let mut slot = node.slot.lock().unwrap();
         if let Some(heap_slot) = slot.take() {
             self.timer_heap.remove(heap_slot);
@@ -414,9 +413,13 @@ impl Future for Timer {
         Pin::new(&mut self.inner).waker.register(cx.waker());
         let mut list = self.inner.list.take();
         while let Some(node) = list.pop() {
+            // Load the generation before the deadline: a concurrent reset stores
+            // the deadline first, so this never pairs a new generation with an
+            // old deadline.
+            let gen = node.state.load(SeqCst) >> 2;
             let at = *node.at.lock().unwrap();
             match at {
-                Some(at) => self.update_or_add(at, node),
+                Some(at) => self.update_or_add(at, gen, node),
                 None => self.remove(node),
             }
         }
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index 3ebbeb4..8c0b525 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -127,6 +127,10 @@ impl Sleep {
             None => return Err(()),
         };
         if let Some(timeouts) = state.inner.upgrade() {
+            // Store the new deadline before bumping the generation: a timer
+            // which sees the new generation must not pair it with the old
+            // deadline, else it'd fire us early.
+            *state.at.lock().unwrap() = Some(at);
             let mut bits = state.state.load(Ordering::SeqCst);
             loop {
                 // If we've been invalidated, cancel this reset
@@ -142,7 +146,6 @@ impl Sleep {
                     Err(s) => bits = s,
                 }
             }
-            *state.at.lock().unwrap() = Some(at);
             // If we fail to push our node then we've become an inert timer, so
             // we'll want to clear our `state` field accordingly
             timeouts.list.push(state)?;
-- 
2.43.0


From 2d3c2731307dc059ff86ce4e6ab6628b4f2ddf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 09/13] fix: refuse pausing a paused clock without leaving it
 locked

The guard of the clock's mutex was still held when pause() panicked, so
after a refused pause every later reading of the clock failed.
---
 src/timer/clock.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index 91f5bad..a3a86fd 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -83,12 +83,9 @@ impl Clock {
 
     #[track_caller]
     pub(crate) fn pause(&self) {
-        let unfrozen = self
-            .inner
-            .unfrozen
-            .lock()
-            .unwrap()
-            .expect("time is already frozen");
+        // the guard must be gone before the panic, else the clock stays locked
+        let unfrozen = *self.inner.unfrozen.lock().unwrap();
+        let unfrozen = unfrozen.expect("time is already frozen");
         let elapsed = Instant::now_js() - unfrozen;
         let mut base = self.inner.base.lock().unwrap();
         (*base) += elapsed;
-- 
2.43.0


From 143d4a7371f20afdf55f8b92200fa775b1f9a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 10/13] fix: with the clock paused, a wake-up from within a
 driver run deadlocked

---
 src/timer/global.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index c8eda3e..d9c45c2 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -41,6 +41,11 @@ struct Driver {
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
 /// processes everything. `due` is the host time of a callback recorded as `next_callback`.
 fn schedule_callback(driver: Arc<Mutex<Driver>>, when: Duration, due: Option<Instant>) {
+    // A wake-up can come from within a driver run (a task's waker may drop or
+    // register a sleep): the driver must not be run synchronously then.
+    #[cfg(feature = "tokio-test-util")]
+    let run_now = super::clock::clock().paused() && !driver.is_locked();
+
     let cb = move || {
         let mut driver_lock = driver.lock();
         if due.is_some() && driver_lock.next_callback == due {
@@ -95,7 +100,7 @@ fn schedule_callback(driver: Arc<Mutex<Driver>>, when: Duration, due: Option<Ins
     };
 
     #[cfg(feature = "tokio-test-util")]
-    if super::clock::clock().paused() {
+    if run_now {
         cb();
     } else {
         let _ = set_timeout(
-- 
2.43.0


From 25d28aa3e1be2a792c64b4eb99ba7dae490e589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 11/13] fix: two threads that use the test clock first at the
 same time no longer panic

clock() unwrapped the compare-and-swap that installs the clock, so the thread
that lost the race panicked. It now releases its own clock and uses the one
that was installed.
---
 src/timer/clock.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index a3a86fd..d0a6412 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -10,11 +10,15 @@ pub(crate) fn clock() -> Clock {
     let mut clock = CLOCK.load(std::sync::atomic::Ordering::SeqCst);
 
     if clock == EMPTY_CLOCK {
-        let clock_new = Clock::new(false);
-        CLOCK
-            .compare_exchange(EMPTY_CLOCK, clock_new.into_raw(), SeqCst, SeqCst)
-            .unwrap();
-        clock = CLOCK.load(SeqCst);
+        let clock_new = Clock::new(false).into_raw();
+        clock = match CLOCK.compare_exchange(EMPTY_CLOCK, clock_new, SeqCst, SeqCst) {
+            Ok(_) => clock_new,
+            // another thread was faster, its clock is the one to use
+            Err(installed) => {
+                unsafe { drop(Clock::from_raw(clock_new)) };
+                installed
+            }
+        };
     }
 
     assert!(clock != EMPTY_CLOCK);
-- 
2.43.0


From 8b694bcf94cbde6d6b55a98f1966d8a2f94357ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 12/13] fix: an advance that cannot be represented no longer
 leaves the test clock locked

---
 src/timer/clock.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index d0a6412..a2c2f61 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -105,7 +105,14 @@ impl Clock {
 
         let mut base = self.inner.base.lock().unwrap();
 
-        (*base) += duration;
+        match base.checked_add(duration) {
+            Some(advanced) => *base = advanced,
+            None => {
+                // the guard must be gone before the panic, else the clock stays locked
+                drop(base);
+                panic!("overflow when advancing the clock");
+            }
+        }
     }
 
     pub(crate) fn now(&self) -> Instant {
-- 
2.43.0


From 9179f7219576c40d8d593a77d45a7e9e9ce6b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:56 +0000
Subject: [PATCH 13/13] fix: do not let an item almost a full turn ahead hide
 nearer ones in the top level of the wheel

---
 src/tokio_util/wheel/level.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 8685f8d..a7a844d 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -169,8 +169,10 @@ impl<T: Stack> Level<T> {
             return None;
         }
 
-        // Get the slot for now using Maths
-        let now_slot = (now / slot_range(self.level)) as usize;
+        // Get the first slot that starts at or after now using Maths. One that
+        // has started can only be occupied for the next rotation.
+        let slot_range = slot_range(self.level);
+        let now_slot = ((now + slot_range - 1) / slot_range) as usize;
         let occupied = self.occupied.rotate_right(now_slot as u32);
         let zeros = occupied.trailing_zeros() as usize;
         let slot = (zeros + now_slot) % 64;
-- 
2.43.0

