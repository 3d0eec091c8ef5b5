From 206ac80e94fe30103fef2458ec9921556a415958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 01/61] fix: cancelling invoked work must only drop its own
 pending invocations

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 7e22a44..74278b1 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -173,7 +173,7 @@ where
 				ScheduledWorkAction::CancelInvoked(cancelled_invocation_id) => {
 					self.invokable_work.remove(&cancelled_invocation_id);
 					self.invoked
-						.retain(|invoked_id| invoked_id == &cancelled_invocation_id);
+						.retain(|invoked_id| invoked_id != &cancelled_invocation_id);
 				}
 				ScheduledWorkAction::Cancel(cancelled_id) => {
 					if let Some(work_ids) = self.cancellation_map.remove(&cancelled_id) {
-- 
2.43.0


From 1963dae8be90530d8482b9344bb9306590bd66c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 02/61] fix: late subscribers of a finished subject must not be
 signalled while its state is locked, nor once closed

---
 .../src/publish_subject.rs                        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 095eb93..c21d78f 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -117,11 +117,20 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		{
+		// The state must not stay locked while signalling the subscriber, as
+		// that could interact with this subject
+		let (observed_error, is_completed) = {
 			let state = self.deferred_state.lock_ignore_poison();
-			if let Some(error) = state.observed_error.clone() {
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		if !subscriber.is_closed() {
+			if let Some(error) = observed_error {
 				subscriber.error(error);
-			} else if state.observed_state.is_completed() {
+			} else if is_completed {
 				subscriber.complete();
 			}
 		}
-- 
2.43.0


From 1e2d31bf54710c12685b9609c0657a9db3d08e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 03/61] fix: replaying must stop once the new subscriber of a
 ReplaySubject closed

---
 crates/rx_core_subject_replay/src/replay_subject.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subject_replay/src/replay_subject.rs b/crates/rx_core_subject_replay/src/replay_subject.rs
index 654e2da..4be35f4 100644
--- a/crates/rx_core_subject_replay/src/replay_subject.rs
+++ b/crates/rx_core_subject_replay/src/replay_subject.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use ringbuffer::{ConstGenericRingBuffer, RingBuffer};
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -101,6 +102,9 @@ where
 			let buffer_iter = self.values.lock_ignore_poison().clone().into_iter();
 
 			for value in buffer_iter {
+				if destination.is_closed() {
+					break;
+				}
 				destination.next(value);
 			}
 		}
-- 
2.43.0


From 00f1117976e8b48a0f712d4d23ec8880146d9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 04/61] fix: values pushed into a closed subject must not
 change what is replayed to late subscribers

---
 crates/rx_core_subject_async/src/async_subject.rs       | 4 ++++
 crates/rx_core_subject_behavior/src/behavior_subject.rs | 7 ++++++-
 crates/rx_core_subject_replay/src/replay_subject.rs     | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index f38c232..17fc5b0 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -85,6 +85,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.is_closed() {
+			return;
+		}
+
 		let mut value = self.value.lock_ignore_poison();
 
 		let next_value = if let Some(current) = value.take() {
diff --git a/crates/rx_core_subject_behavior/src/behavior_subject.rs b/crates/rx_core_subject_behavior/src/behavior_subject.rs
index 73da64d..3b0b4f5 100644
--- a/crates/rx_core_subject_behavior/src/behavior_subject.rs
+++ b/crates/rx_core_subject_behavior/src/behavior_subject.rs
@@ -1,7 +1,8 @@
 use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.is_closed() {
+			return;
+		}
+
 		*self.value.lock_ignore_poison() = next.clone();
 		self.subject.next(next);
 	}
diff --git a/crates/rx_core_subject_replay/src/replay_subject.rs b/crates/rx_core_subject_replay/src/replay_subject.rs
index 4be35f4..e5911d3 100644
--- a/crates/rx_core_subject_replay/src/replay_subject.rs
+++ b/crates/rx_core_subject_replay/src/replay_subject.rs
@@ -63,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.is_closed() {
+			return;
+		}
+
 		self.values.lock_ignore_poison().enqueue(next.clone());
 
 		self.subject.next(next);
-- 
2.43.0


From 48c52464eb127bd430fda2cbd9b07cfccec1b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 05/61] fix: an AsyncSubject that never completed must not
 replay a result

---
 crates/rx_core_subject_async/src/async_subject.rs     | 6 ++----
 crates/rx_core_subject_publish/src/publish_subject.rs | 6 ++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index 17fc5b0..848ccc9 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -137,12 +137,10 @@ where
 	{
 		let mut destination = destination.upgrade();
 
-		if self.subject.is_closed() {
+		if self.subject.is_completed() {
 			let value = self.value.lock_ignore_poison().clone();
 
-			if !self.subject.is_errored()
-				&& let Some(next) = value
-			{
+			if let Some(next) = value {
 				destination.next(next);
 			}
 			// The multicast returns pre-closed subscriptions, and unsubscribes
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index c21d78f..4150089 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -93,6 +93,12 @@ where
 		let state = self.deferred_state.lock_ignore_poison();
 		state.observed_error.is_some()
 	}
+
+	#[inline]
+	pub fn is_completed(&self) -> bool {
+		let state = self.deferred_state.lock_ignore_poison();
+		state.observed_state.is_completed()
+	}
 }
 
 impl<In, InError> Observable for PublishSubject<In, InError>
-- 
2.43.0


From 4c8c93c82248b9e73a7823258f53d82237a25a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 06/61] fix: asking a subject's subscription if it is closed
 from its own callbacks must not deadlock

---
 .../src/multicast_subscription.rs                    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 4711b19..bb79273 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, TryLockError};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Never, Signal, Subscriber, SubscriptionLike, Teardown,
@@ -73,7 +73,15 @@ where
 {
 	fn is_closed(&self) -> bool {
 		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber.is_closed()
+			match subscriber.try_lock() {
+				Ok(subscriber) => subscriber.is_closed(),
+				// Is being signalled right now, potentially asking from within
+				Err(TryLockError::WouldBlock) => false,
+				Err(TryLockError::Poisoned(poison_error)) => {
+					drop(poison_error);
+					subscriber.is_closed()
+				}
+			}
 		} else {
 			true
 		}
-- 
2.43.0


From 8625cccf888985d94261dd366d9c93ac08da5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 07/61] fix: an AsyncSubject must settle its result before
 emitting it

---
 .../src/async_subject.rs                      | 22 ++++++++++++++++---
 .../src/publish_subject.rs                    |  6 -----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index 848ccc9..23cac5d 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -1,4 +1,7 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{
+	Arc, Mutex,
+	atomic::{AtomicBool, Ordering},
+};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
@@ -40,6 +43,9 @@ where
 	subject: PublishSubject<In, InError>,
 	reducer: Reducer,
 	value: Arc<Mutex<Option<In>>>,
+	/// Set before the result is emitted, so whatever happens in response to it
+	/// can't change it, or have it emitted again
+	is_completing: Arc<AtomicBool>,
 }
 
 impl<In, InError> Default for AsyncSubject<In, InError, DefaultReducer<In>>
@@ -53,6 +59,7 @@ where
 			reducer: default_reducer::<In>,
 			subject: PublishSubject::default(),
 			value: Arc::new(Mutex::new(None)),
+			is_completing: Arc::new(AtomicBool::new(false)),
 		}
 	}
 }
@@ -69,6 +76,7 @@ where
 			reducer,
 			subject: PublishSubject::default(),
 			value: Arc::new(Mutex::new(None)),
+			is_completing: Arc::new(AtomicBool::new(false)),
 		}
 	}
 
@@ -85,7 +93,7 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
-		if self.is_closed() {
+		if self.is_closed() || self.is_completing.load(Ordering::SeqCst) {
 			return;
 		}
 
@@ -102,11 +110,19 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
+		if self.is_completing.load(Ordering::SeqCst) {
+			return;
+		}
+
 		self.subject.error(error);
 	}
 
 	#[inline]
 	fn complete(&mut self) {
+		if self.is_closed() || self.is_completing.swap(true, Ordering::SeqCst) {
+			return;
+		}
+
 		let value = self.value.lock_ignore_poison().clone();
 
 		if let Some(value) = value {
@@ -137,7 +153,7 @@ where
 	{
 		let mut destination = destination.upgrade();
 
-		if self.subject.is_completed() {
+		if self.is_completing.load(Ordering::SeqCst) {
 			let value = self.value.lock_ignore_poison().clone();
 
 			if let Some(next) = value {
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 4150089..c21d78f 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -93,12 +93,6 @@ where
 		let state = self.deferred_state.lock_ignore_poison();
 		state.observed_error.is_some()
 	}
-
-	#[inline]
-	pub fn is_completed(&self) -> bool {
-		let state = self.deferred_state.lock_ignore_poison();
-		state.observed_state.is_completed()
-	}
 }
 
 impl<In, InError> Observable for PublishSubject<In, InError>
-- 
2.43.0


From 8eeba40c63ba2696c9c6c4570e56be0ad13292e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 08/61] fix: signals deferred while another thread was using
 the subject must not be left unapplied

---
 crates/rx_core_subject_publish/src/multicast.rs       | 11 +++++++++++
 .../src/multicast_subscription.rs                     |  2 ++
 crates/rx_core_subject_publish/src/publish_subject.rs |  9 +--------
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 039c7f1..fc59bd2 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -196,6 +196,17 @@ where
 		}
 	}
 
+	/// Notifications could be deferred by another thread right before the lock
+	/// is released, after the queue was already seen empty, so it must always
+	/// be checked again after the lock is released.
+	pub(crate) fn try_apply_deferred(&self) {
+		while self.deferred_state.lock_ignore_poison().is_dirty()
+			&& let Ok(mut subscribers) = self.subscribers.try_lock()
+		{
+			Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
+		}
+	}
+
 	pub(crate) fn try_add_subscriber(
 		&mut self,
 		subscriber: Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index bb79273..51f020d 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -97,6 +97,8 @@ where
 				.defer_notification(MulticastNotification::UnsubscribeById(id));
 		}
 
+		self.subscribers.try_apply_deferred();
+
 		self.subscriber.take();
 	}
 }
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index c21d78f..c1cc57c 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -72,14 +72,7 @@ where
 	InError: Signal + Clone,
 {
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscribers) = self.subscribers.subscribers.try_lock()
-		{
-			SharedSubscribers::apply_notification_queue(
-				self.deferred_state.clone(),
-				&mut subscribers,
-			);
-		}
+		self.subscribers.try_apply_deferred();
 	}
 }
 
-- 
2.43.0


From 75e096a74c05e68ae424d30fca4a16703961da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 09/61] fix: a subject finished by two threads at once must
 only finish once

---
 .../src/publish_subject.rs                    | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index c1cc57c..a3e9326 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -184,31 +184,38 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_error = Some(error.clone());
-
-			if let Err(error_error) = self.subscribers.try_error(error) {
-				self.deferred_state
-					.lock_ignore_poison()
-					.defer_notification(MulticastNotification::Error(error_error.error));
+		let was_closed = {
+			let mut state = self.deferred_state.lock_ignore_poison();
+			let was_closed = state.is_closed();
+			if !was_closed {
+				state.observed_error = Some(error.clone());
 			}
+			was_closed
+		};
+
+		if !was_closed && let Err(error_error) = self.subscribers.try_error(error) {
+			self.deferred_state
+				.lock_ignore_poison()
+				.defer_notification(MulticastNotification::Error(error_error.error));
 		}
 
 		self.try_apply_deferred();
 	}
 
 	fn complete(&mut self) {
-		if !self.is_closed() {
+		let was_closed = {
+			let mut state = self.deferred_state.lock_ignore_poison();
+			let was_closed = state.is_closed();
+			if !was_closed {
+				state.observed_state.complete();
+			}
+			was_closed
+		};
+
+		if !was_closed && let Err(_complete_error) = self.subscribers.try_complete() {
 			self.deferred_state
 				.lock_ignore_poison()
-				.observed_state
-				.complete();
-
-			if let Err(_complete_error) = self.subscribers.try_complete() {
-				self.deferred_state
-					.lock_ignore_poison()
-					.defer_notification(MulticastNotification::Complete);
-			}
+				.defer_notification(MulticastNotification::Complete);
 		}
 
 		self.try_apply_deferred();
-- 
2.43.0


From cc03038dde5b1e6e2c480bdd971fa0100589ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 10/61] fix: a subscriber added while another thread finishes
 the subject must be finished too

---
 .../rx_core_subject_publish/src/multicast.rs  |  10 +-
 .../src/publish_subject.rs                    | 102 ++++++++++--------
 2 files changed, 68 insertions(+), 44 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index fc59bd2..ece1eff 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -207,19 +207,25 @@ where
 		}
 	}
 
+	/// Returns no id when the subscriber wasn't added because of having been
+	/// closed already.
 	pub(crate) fn try_add_subscriber(
 		&mut self,
 		subscriber: Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
-	) -> Result<MulticastSubscriberId, MulticastAddLockError<In, InError>> {
+	) -> Result<Option<MulticastSubscriberId>, MulticastAddLockError<In, InError>> {
 		let id = self.subscriber_id_generator.lock_ignore_poison().get_next();
 
 		match self.subscribers.try_lock() {
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
+				if self.deferred_state.lock_ignore_poison().is_closed() {
+					return Ok(None);
+				}
+
 				subscribers.add_subscriber(id, subscriber);
 
-				Ok(id)
+				Ok(Some(id))
 			}
 			Err(_) => Err(MulticastAddLockError { id, subscriber }),
 		}
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index a3e9326..7b172fb 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -74,6 +74,32 @@ where
 	fn try_apply_deferred(&mut self) {
 		self.subscribers.try_apply_deferred();
 	}
+
+	/// What a subscriber gets if it subscribed after this subject has closed.
+	fn close_late_subscriber(&self, mut subscriber: impl Subscriber<In = In, InError = InError>) {
+		// The state must not stay locked while signalling the subscriber, as
+		// that could interact with this subject
+		let (observed_error, is_completed) = {
+			let state = self.deferred_state.lock_ignore_poison();
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		if !subscriber.is_closed() {
+			if let Some(error) = observed_error {
+				subscriber.error(error);
+			} else if is_completed {
+				subscriber.complete();
+			}
+		}
+
+		// Subscribing to a closed subject could also cause a panic, but I prefer this
+		if !subscriber.is_closed() {
+			subscriber.unsubscribe();
+		}
+	}
 }
 
 impl<In, InError> PublishSubject<In, InError>
@@ -108,60 +134,52 @@ where
 		// In case a deferred notification would close this subject
 		self.try_apply_deferred();
 
-		let mut subscriber = destination.upgrade();
+		let subscriber = destination.upgrade();
 
-		// The state must not stay locked while signalling the subscriber, as
-		// that could interact with this subject
-		let (observed_error, is_completed) = {
-			let state = self.deferred_state.lock_ignore_poison();
-			(
-				state.observed_error.clone(),
-				state.observed_state.is_completed(),
-			)
-		};
-
-		if !subscriber.is_closed() {
-			if let Some(error) = observed_error {
-				subscriber.error(error);
-			} else if is_completed {
-				subscriber.complete();
-			}
+		if self.is_closed() {
+			self.close_late_subscriber(subscriber);
+			return MulticastSubscription::new_closed(
+				self.deferred_state.clone(),
+				self.subscribers.clone(),
+			);
 		}
 
-		if self.is_closed() {
-			// Subscribing to a closed subject could also cause a panic, but I prefer this
-			if !subscriber.is_closed() {
-				subscriber.unsubscribe();
-			}
-			MulticastSubscription::new_closed(self.deferred_state.clone(), self.subscribers.clone())
-		} else {
-			let shared_subscriber = Arc::new(Mutex::new(subscriber));
-			let shared_subscriber_clone = shared_subscriber.clone();
+		let shared_subscriber = Arc::new(Mutex::new(subscriber));
 
-			let try_add_result = self.subscribers.try_add_subscriber(shared_subscriber);
-			let id = match try_add_result {
-				Ok(id) => id,
-				Err(add_subscriber_error) => {
-					self.deferred_state.lock_ignore_poison().defer_notification(
-						MulticastNotification::Add(
-							add_subscriber_error.id,
-							add_subscriber_error.subscriber,
-						),
-					);
-					add_subscriber_error.id
+		// Another thread could close this subject until it's actually added
+		let id = match self
+			.subscribers
+			.try_add_subscriber(shared_subscriber.clone())
+		{
+			Ok(id) => id,
+			Err(add_subscriber_error) => {
+				let mut state = self.deferred_state.lock_ignore_poison();
+				if state.is_closed() {
+					None
+				} else {
+					state.defer_notification(MulticastNotification::Add(
+						add_subscriber_error.id,
+						add_subscriber_error.subscriber,
+					));
+					Some(add_subscriber_error.id)
 				}
-			};
+			}
+		};
 
-			// In case the new subscription immediately did something with
-			// this subject
-			self.try_apply_deferred();
+		// In case the new subscription immediately did something with
+		// this subject
+		self.try_apply_deferred();
 
+		if let Some(id) = id {
 			MulticastSubscription::new(
 				id,
 				self.deferred_state.clone(),
 				self.subscribers.clone(),
-				shared_subscriber_clone,
+				shared_subscriber,
 			)
+		} else {
+			self.close_late_subscriber(shared_subscriber);
+			MulticastSubscription::new_closed(self.deferred_state.clone(), self.subscribers.clone())
 		}
 	}
 }
-- 
2.43.0


From a6c322c6dd61bb5b60da8c328fe8df108e048436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:27 +0000
Subject: [PATCH 11/61] fix: report catch's subscription closed when its
 destination closed it

---
 crates/rx_core_operator_catch/src/catch_subscriber.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index e15f27f..57fa732 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -167,11 +167,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
 				subscription_handle.unsubscribe();
 			};
-- 
2.43.0


From dec2c3fb8638f2a680793d1ec2cc2359d584136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:27 +0000
Subject: [PATCH 12/61] fix: execute teardowns added to a subscription that is
 already closed

---
 .../src/subscriptions/subscription.rs          | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription.rs b/crates/rx_core_common/src/subscriptions/subscription.rs
index 4375377..761eedc 100644
--- a/crates/rx_core_common/src/subscriptions/subscription.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription.rs
@@ -1,10 +1,9 @@
 use rx_core_macro_subscription_derive::RxSubscription;
 
-use crate::{Subscriber, SubscriptionData};
+use crate::{Subscriber, SubscriptionData, SubscriptionLike, Teardown, TeardownCollection};
 
 #[derive(RxSubscription)]
 #[_rx_core_common_crate(crate)]
-#[rx_delegate_teardown_collection]
 #[rx_delegate_subscription_like_to_destination]
 pub struct Subscription<Destination>
 where
@@ -27,3 +26,18 @@ where
 		}
 	}
 }
+
+impl<Destination> TeardownCollection for Subscription<Destination>
+where
+	Destination: Subscriber,
+{
+	fn add_teardown(&mut self, teardown: Teardown) {
+		if self.is_closed() {
+			// The destination can be closed without this subscription's own
+			// teardown being closed too.
+			teardown.execute();
+		} else {
+			self.teardown.add_teardown(teardown);
+		}
+	}
+}
-- 
2.43.0


From ea87d7937d8d1196e74d619bf2ba7692529a4ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 13/61] fix: do not subscribe to queued observables while
 unsubscribing from merge and concat

---
 .../src/concurrent_subscriber.rs                          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 4c13b47..5a8ad16 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -38,7 +38,9 @@ where
 {
 	pub fn new(destination: Destination, concurrency_limit: NonZero<usize>) -> Self {
 		let mut shared_destination = SharedSubscriber::new(destination);
-		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::default()));
+		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::<
+			ConcurrentSubscriberQueue<InnerObservable>,
+		>::default()));
 		let inner_subscriptions = Arc::new(Mutex::new(Slab::<SubscriptionData>::new()));
 		let mut outer_teardown = SharedSubscription::default();
 
@@ -46,6 +48,10 @@ where
 		let state_on_unsubscribe = state.clone();
 
 		outer_teardown.add_fn(move || {
+			// Nothing in the queue can be subscribed to anymore
+			let queue = std::mem::take(&mut state_on_unsubscribe.lock_ignore_poison().state.queue);
+			drop(queue);
+
 			let inner_subscriptions = inner_subscriptions_on_unsubscribe
 				.lock_ignore_poison()
 				.drain()
-- 
2.43.0


From 7f2f692155d91c3155beebc70780f2794d7747d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 14/61] fix: keep subscribing to queued observables when one of
 them is cancelled

---
 .../src/concurrent_subscriber.rs              | 69 ++++++++++---------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 5a8ad16..7318289 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -78,29 +78,44 @@ where
 	}
 }
 
+/// Subscribes to as many queued observables as possible, while the number of
+/// non-completed subscriptions is lower than the limit.
 pub(crate) fn subscribe_to_next_in_queue<InnerObservable, Destination>(
 	state: Arc<Mutex<HigherOrderSubscriberState<ConcurrentSubscriberQueue<InnerObservable>>>>,
 	inner_subscriptions: Arc<Mutex<Slab<SubscriptionData>>>,
 	shared_destination: SharedSubscriber<Destination>,
 	outer_teardown: SharedSubscription,
 	concurrency_limit: NonZero<usize>,
+	non_completed_limit: usize,
 ) where
 	InnerObservable: Observable<Out = Destination::In, OutError = Destination::InError> + Signal,
 	Destination: 'static + Subscriber,
 {
-	let mut state_lock = state.lock_ignore_poison();
+	loop {
+		let next = {
+			let mut state_lock = state.lock_ignore_poison();
 
-	if let Some(next) = state_lock.state.queue.pop_front() {
-		state_lock.non_completed_subscriptions += 1;
-		state_lock.non_unsubscribed_subscriptions += 1;
-		drop(state_lock);
+			if state_lock.downstream_subscriber_state.is_closed()
+				|| state_lock.non_completed_subscriptions >= non_completed_limit
+			{
+				break;
+			}
+
+			let Some(next) = state_lock.state.queue.pop_front() else {
+				break;
+			};
+
+			state_lock.non_completed_subscriptions += 1;
+			state_lock.non_unsubscribed_subscriptions += 1;
+			next
+		};
 
 		create_inner_subscription(
 			next,
 			state.clone(),
-			inner_subscriptions,
-			shared_destination,
-			outer_teardown,
+			inner_subscriptions.clone(),
+			shared_destination.clone(),
+			outer_teardown.clone(),
 			concurrency_limit,
 		);
 	}
@@ -131,7 +146,6 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 
 	let inner_subscriptions_clone = inner_subscriptions.clone();
 
-	let concurrency_limit_minus_one: usize = usize::from(concurrency_limit) - 1;
 	let outer_teardown_on_complete_clone = outer_teardown.clone();
 	let mut outer_teardown_on_unsubscribe = outer_teardown.clone();
 	let mut shared_destination_on_unsubscribe = shared_destination.clone();
@@ -147,32 +161,23 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 				shared_destination_on_complete_clone,
 				outer_teardown_on_complete_clone.clone(),
 				concurrency_limit,
+				// The one completing is still counted
+				usize::from(concurrency_limit).saturating_add(1),
 			);
 		},
-		move |key| {
-			let no_more_subscribers_besides_this = {
-				let mut inner_subscriptions = inner_subscriptions.lock_ignore_poison();
-				inner_subscriptions.retain(|_k, s| !s.is_closed());
-				inner_subscriptions
-					.iter()
-					.filter(|(k, _)| *k != key)
-					.count() == concurrency_limit_minus_one
-			};
+		move |_key| {
+			inner_subscriptions
+				.lock_ignore_poison()
+				.retain(|_k, s| !s.is_closed());
 
-			if no_more_subscribers_besides_this
-				&& !state
-					.lock_ignore_poison()
-					.downstream_subscriber_state
-					.is_closed()
-			{
-				subscribe_to_next_in_queue(
-					state.clone(),
-					inner_subscriptions.clone(),
-					shared_destination.clone(),
-					outer_teardown.clone(),
-					concurrency_limit,
-				);
-			}
+			subscribe_to_next_in_queue(
+				state.clone(),
+				inner_subscriptions.clone(),
+				shared_destination.clone(),
+				outer_teardown.clone(),
+				concurrency_limit,
+				concurrency_limit.into(),
+			);
 
 			let mut state_lock = state.lock_ignore_poison();
 			let can_unsubscribe = state_lock.can_downstream_unsubscribe();
-- 
2.43.0


From bdf16c569f764e7c2fc84d30b1a24dc4f7320ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 15/61] fix: an inner observable erroring after another one
 errored must not panic

---
 .../src/higher_order_subscriber_inner.rs          | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
index 8aa3245..63d2818 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
@@ -82,8 +82,19 @@ where
 
 	fn error(&mut self, error: Self::InError) {
 		if !self.is_closed() {
-			self.state.lock_ignore_poison().downstream_error();
-			self.shared_destination.error(error);
+			let downstream_can_error = {
+				let mut state = self.state.lock_ignore_poison();
+				// Another inner subscriber may have already closed it
+				let downstream_can_error = !state.downstream_subscriber_state.is_closed();
+				if downstream_can_error {
+					state.downstream_error();
+				}
+				downstream_can_error
+			};
+
+			if downstream_can_error {
+				self.shared_destination.error(error);
+			}
 			self.unsubscribe();
 		}
 	}
-- 
2.43.0


From 2c8bacc64b4030b08b62bd25cc6d0e64904e7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 16/61] fix: switch and exhaust are closed when their
 destination is closed

---
 .../src/exhaust_subscriber.rs                                 | 4 ++--
 .../src/switch_subscriber.rs                                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 78ecd64..8cf9688 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -124,11 +124,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription {
 				subscription_handle.unsubscribe();
 			};
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index e19c081..18de9a3 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -141,11 +141,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-- 
2.43.0


From 53df5dd9753bb22157c2dfb444f5e48c001a95df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:43 +0000
Subject: [PATCH 17/61] fix: a subject finished while it was in use must not
 unsubscribe who is still open, nor emit afterwards

---
 .../rx_core_subject_publish/src/multicast.rs  | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index ece1eff..d9514f8 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -178,15 +178,20 @@ where
 
 				let is_unsubscribe = matches!(&notification, MulticastNotification::Unsubscribe);
 
+				// Subscribers can still be open after the subject completed
+				let is_about_subscription = is_unsubscribe
+					|| matches!(
+						&notification,
+						MulticastNotification::UnsubscribeById(_)
+					);
+
 				// Other notifications can be safely dropped when already closed
-				if !state.lock_clear_poison().is_closed_ignoring_deferred() {
+				if is_about_subscription
+					|| !state.lock_clear_poison().is_closed_ignoring_deferred()
+				{
 					subscribers.apply(notification);
 				}
 
-				if is_terminal {
-					subscribers.apply(MulticastNotification::Unsubscribe);
-				}
-
 				if is_unsubscribe || is_terminal {
 					state.lock_ignore_poison().closed_flag.close();
 				}
@@ -236,7 +241,10 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.next(next);
+				// Another thread could have finished it until it was locked
+				if !self.deferred_state.lock_ignore_poison().is_closed() {
+					subscribers.next(next);
+				}
 
 				Ok(())
 			}
@@ -328,11 +336,15 @@ where
 	InError: Signal + Clone,
 {
 	pub(crate) fn defer_notification(&mut self, notification: MulticastNotification<In, InError>) {
-		// The first unsubscribe notification must be let through
-		let is_first_unsubscribe = matches!(notification, MulticastNotification::Unsubscribe)
-			&& !self.observed_state.is_unsubscribed();
+		// Unsubscribe notifications must be let through, subscribers can still
+		// be open after the subject completed
+		let is_about_subscription = matches!(
+			notification,
+			MulticastNotification::Unsubscribe
+				| MulticastNotification::UnsubscribeById(_)
+		);
 
-		if *self.closed_flag && !is_first_unsubscribe {
+		if *self.closed_flag && !is_about_subscription {
 			if let MulticastNotification::Add(_id, mut subscriber) = notification
 				&& !subscriber.is_closed()
 			{
@@ -342,6 +354,11 @@ where
 			return;
 		}
 
+		// Could've been finished by another thread since it was allowed to be sent
+		if matches!(notification, MulticastNotification::Next(_)) && self.is_closed() {
+			return;
+		}
+
 		self.deferred_notifications_queue.push(notification);
 	}
 
-- 
2.43.0


From dd5bd30fcdbb7544dd3dc40cc607d858e79fc508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:30 +0000
Subject: [PATCH 18/61] fix: signals of a shared subscriber or subscription
 deferred by other threads must neither be lost nor arrive after it closed

---
 .../src/subscribers/subscriber_shared.rs      | 85 +++++++++++++------
 .../src/subscriptions/subscription_shared.rs  |  3 +-
 2 files changed, 62 insertions(+), 26 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 916b4bc..0c3e286 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -58,17 +58,36 @@ where
 	InError: Signal,
 {
 	pub(crate) fn defer_notification(&mut self, notification: SubscriberNotification<In, InError>) {
-		// The first unsubscribe notification must be let through
-		let is_first_unsubscribe = matches!(notification, SubscriberNotification::Unsubscribe)
-			&& !self.observed_unsubscribe;
+		// Unsubscribe notifications must be let through
+		let is_unsubscribe = matches!(notification, SubscriberNotification::Unsubscribe);
 
-		if *self.closed_flag && !is_first_unsubscribe {
+		if self.is_closed() && !is_unsubscribe {
 			return;
 		}
 
+		match &notification {
+			SubscriberNotification::Error(_) => self.observed_error = true,
+			SubscriberNotification::Complete => self.observed_completion = true,
+			_ => {}
+		}
+
 		self.deferred_notifications_queue.push(notification);
 	}
 
+	/// Marks it as errored, returns false if it was already closed
+	pub(crate) fn observe_error(&mut self) -> bool {
+		let was_open = !self.is_closed();
+		self.observed_error |= was_open;
+		was_open
+	}
+
+	/// Marks it as completed, returns false if it was already closed
+	pub(crate) fn observe_completion(&mut self) -> bool {
+		let was_open = !self.is_closed();
+		self.observed_completion |= was_open;
+		was_open
+	}
+
 	pub(crate) fn drain_notification_queue(&mut self) -> Vec<SubscriberNotification<In, InError>> {
 		self.deferred_notifications_queue
 			.drain(..)
@@ -189,7 +208,8 @@ where
 	}
 
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// Others can defer more for as long as it's locked here
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscriber) = self.shared_destination.try_lock()
 		{
 			SharedSubscriber::<Destination>::apply_notification_queue::<Destination>(
@@ -231,9 +251,15 @@ where
 			// notifications to acquire it again
 			for notification in notifications.into_iter() {
 				let is_closing = notification.is_closing();
+				// The destination can still be open after it was completed
+				let is_needed_unsubscribe =
+					matches!(notification, SubscriberNotification::Unsubscribe)
+						&& !subscriber.is_closed();
 
 				// Other notifications can be safely dropped when already closed
-				if !state.lock_clear_poison().is_closed_ignoring_deferred() {
+				if is_needed_unsubscribe
+					|| !state.lock_clear_poison().is_closed_ignoring_deferred()
+				{
 					subscriber.push(notification);
 				}
 
@@ -252,7 +278,9 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.next(next);
+				if !self.deferred_state.lock_ignore_poison().is_closed() {
+					subscribers.next(next);
+				}
 
 				Ok(())
 			}
@@ -268,7 +296,9 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.error(error);
+				if self.deferred_state.lock_ignore_poison().observe_error() {
+					subscribers.error(error);
+				}
 
 				Ok(())
 			}
@@ -281,7 +311,14 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.complete();
+				if self
+					.deferred_state
+					.lock_ignore_poison()
+					.observe_completion()
+				{
+					subscribers.complete();
+				}
+
 				Ok(())
 			}
 			Err(_) => Err(SubscriberCompleteLockError),
@@ -335,28 +372,26 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_error = true;
-
-			if let Err(error_error) = self.try_error(error) {
-				self.deferred_state
-					.lock_ignore_poison()
-					.defer_notification(SubscriberNotification::Error(error_error.error));
-			}
+		if !self.is_closed()
+			&& let Err(error_error) = self.try_error(error)
+		{
+			self.deferred_state
+				.lock_ignore_poison()
+				.defer_notification(SubscriberNotification::Error(error_error.error));
 		}
+
 		self.try_apply_deferred();
 	}
 
 	fn complete(&mut self) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_completion = true;
-
-			if let Err(_complete_error) = self.try_complete() {
-				self.deferred_state
-					.lock_ignore_poison()
-					.defer_notification(SubscriberNotification::Complete);
-			}
+		if !self.is_closed()
+			&& let Err(_complete_error) = self.try_complete()
+		{
+			self.deferred_state
+				.lock_ignore_poison()
+				.defer_notification(SubscriberNotification::Complete);
 		}
+
 		self.try_apply_deferred();
 	}
 }
diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 23bf075..35c67b4 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -108,7 +108,8 @@ impl SharedSubscription {
 	}
 
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// Others can defer more for as long as it's locked here
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscription) = self.subscription.try_lock()
 		{
 			SharedSubscription::apply_notification_queue(
-- 
2.43.0


From 7dff274596a659722213a75bc57d09a50f7924fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:30 +0000
Subject: [PATCH 19/61] fix: adding a teardown from a callback must not
 deadlock

---
 .../src/subscribers/subscriber_shared.rs      | 49 ++++++++++++++++---
 .../src/subscriptions/subscription_shared.rs  | 46 ++++++++++++++---
 .../rx_core_subject_publish/src/multicast.rs  |  7 ++-
 .../src/multicast_notification.rs             |  9 +++-
 .../src/multicast_subscription.rs             | 24 +++++++--
 5 files changed, 114 insertions(+), 21 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 0c3e286..fdfbf94 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -1,11 +1,11 @@
-use std::sync::{Arc, Mutex, MutexGuard, Weak};
+use std::sync::{Arc, Mutex, MutexGuard, TryLockError, Weak};
 
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
 use crate::{
 	LockWithPoisonBehavior, RxObserver, SharedDestination, Signal, Subscriber,
 	SubscriberNotification, SubscriberPushNotificationExtention, SubscriptionClosedFlag,
-	SubscriptionLike, UpgradeableObserver,
+	SubscriptionLike, Teardown, TeardownCollection, UpgradeableObserver,
 };
 
 pub(crate) const SUBSCRIBER_MAX_RECURSION_DEPTH: usize = 10;
@@ -40,6 +40,9 @@ where
 {
 	pub(crate) deferred_notifications_queue: Vec<SubscriberNotification<In, InError>>,
 
+	/// Teardowns that were added while the destination was locked.
+	pub(crate) deferred_teardowns: Vec<Teardown>,
+
 	/// Separate close flag for the real, applied closedness, as non-deferred
 	/// signals only have to respect this.
 	pub(crate) closed_flag: SubscriptionClosedFlag,
@@ -95,9 +98,9 @@ where
 	}
 
 	/// The state is considered dirty when there are unprocessed notifications
-	/// in the queue.
+	/// in the queue, or teardowns to be added.
 	pub(crate) fn is_dirty(&self) -> bool {
-		!self.deferred_notifications_queue.is_empty()
+		!self.deferred_notifications_queue.is_empty() || !self.deferred_teardowns.is_empty()
 	}
 
 	pub(crate) fn is_unsubscribed(&self) -> bool {
@@ -142,6 +145,7 @@ where
 			observed_unsubscribe: false,
 			observed_error: false,
 			deferred_notifications_queue: Vec::default(),
+			deferred_teardowns: Vec::default(),
 		}
 	}
 }
@@ -166,7 +170,6 @@ where
 #[_rx_core_common_crate(crate)]
 #[rx_in(Destination::In)]
 #[rx_in_error(Destination::InError)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl]
 pub struct SharedSubscriber<Destination>
 where
@@ -226,7 +229,7 @@ where
 		D: Subscriber,
 	{
 		for queue_depth in 0..=SUBSCRIBER_MAX_RECURSION_DEPTH {
-			let notifications = {
+			let (teardowns, notifications) = {
 				let mut locked_state = state.lock_ignore_poison();
 
 				// Infinite loop protection
@@ -236,16 +239,23 @@ where
 					)
 				}
 
-				if locked_state.deferred_notifications_queue.is_empty() {
+				if !locked_state.is_dirty() {
 					break;
 				}
 
 				// Don't drain until the above checks have happened to not drop
 				// un-applied notifications.
 				// In case that panic above is no longer a panic.
-				locked_state.drain_notification_queue()
+				(
+					std::mem::take(&mut locked_state.deferred_teardowns),
+					locked_state.drain_notification_queue(),
+				)
 			};
 
+			for teardown in teardowns.into_iter() {
+				subscriber.add_teardown(teardown);
+			}
+
 			// Each closedness check acquires a fresh lock for up-to-date
 			// information and immediately releases it to allow applied
 			// notifications to acquire it again
@@ -427,6 +437,29 @@ where
 	}
 }
 
+impl<Destination> TeardownCollection for SharedSubscriber<Destination>
+where
+	Destination: 'static + Subscriber + Send + Sync,
+{
+	fn add_teardown(&mut self, teardown: Teardown) {
+		match self.shared_destination.try_lock() {
+			Ok(mut destination) => destination.add_teardown(teardown),
+			// It can be the one holding the lock that adds this teardown
+			Err(TryLockError::WouldBlock) => self
+				.deferred_state
+				.lock_ignore_poison()
+				.deferred_teardowns
+				.push(teardown),
+			Err(TryLockError::Poisoned(poison_error)) => {
+				teardown.execute();
+				poison_error.into_inner().unsubscribe();
+			}
+		}
+
+		self.try_apply_deferred();
+	}
+}
+
 impl<Destination> SharedDestination<Destination> for SharedSubscriber<Destination>
 where
 	Destination: 'static + Subscriber + Send + Sync,
diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 35c67b4..830528c 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -1,11 +1,11 @@
-use std::sync::{Arc, Mutex, MutexGuard};
+use std::sync::{Arc, Mutex, MutexGuard, TryLockError};
 
 use rx_core_macro_subscription_derive::RxSubscription;
 
 use crate::{
 	LockWithPoisonBehavior, SubscriptionClosedFlag, SubscriptionData, SubscriptionLike,
 	SubscriptionLikePushNotificationExtention, SubscriptionNotification, SubscriptionWithTeardown,
-	TeardownCollectionExtension,
+	Teardown, TeardownCollection, TeardownCollectionExtension,
 };
 
 pub(crate) const SUBSCRIPTION_MAX_RECURSION_DEPTH: usize = 10;
@@ -17,6 +17,9 @@ pub(crate) struct SubscriptionUnsubscribeLockError;
 struct SubscriptionDeferredState {
 	pub(crate) deferred_notifications_queue: Vec<SubscriptionNotification>,
 
+	/// Teardowns that were added while the subscription was locked.
+	pub(crate) deferred_teardowns: Vec<Teardown>,
+
 	/// Separate close flag for the real, applied closedness, as non-deferred
 	/// signals only have to respect this.
 	pub(crate) closed_flag: SubscriptionClosedFlag,
@@ -45,9 +48,9 @@ impl SubscriptionDeferredState {
 	}
 
 	/// The state is considered dirty when there are unprocessed notifications
-	/// in the queue.
+	/// in the queue, or teardowns to be added.
 	pub(crate) fn is_dirty(&self) -> bool {
-		!self.deferred_notifications_queue.is_empty()
+		!self.deferred_notifications_queue.is_empty() || !self.deferred_teardowns.is_empty()
 	}
 
 	pub(crate) fn is_unsubscribed(&self) -> bool {
@@ -82,13 +85,13 @@ impl Default for SubscriptionDeferredState {
 			closed_flag: false.into(),
 			observed_unsubscribe: false,
 			deferred_notifications_queue: Vec::default(),
+			deferred_teardowns: Vec::default(),
 		}
 	}
 }
 
 #[derive(RxSubscription, Default, Clone, Debug)]
 #[_rx_core_common_crate(crate)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl] // It's shared
 pub struct SharedSubscription {
 	#[destination]
@@ -124,7 +127,7 @@ impl SharedSubscription {
 		subscriber: &mut MutexGuard<'_, SubscriptionData>,
 	) {
 		for queue_depth in 0..=SUBSCRIPTION_MAX_RECURSION_DEPTH {
-			let notifications = {
+			let (teardowns, notifications) = {
 				let mut locked_state = state.lock_ignore_poison();
 
 				// Infinite loop protection
@@ -134,16 +137,23 @@ impl SharedSubscription {
 					)
 				}
 
-				if locked_state.deferred_notifications_queue.is_empty() {
+				if !locked_state.is_dirty() {
 					break;
 				}
 
 				// Don't drain until the above checks have happened to not drop
 				// un-applied notifications.
 				// In case that panic above is no longer a panic.
-				locked_state.drain_notification_queue()
+				(
+					std::mem::take(&mut locked_state.deferred_teardowns),
+					locked_state.drain_notification_queue(),
+				)
 			};
 
+			for teardown in teardowns.into_iter() {
+				subscriber.add_teardown(teardown);
+			}
+
 			// Each closedness check acquires a fresh lock for up-to-date
 			// information and immediately releases it to allow applied
 			// notifications to acquire it again
@@ -210,6 +220,26 @@ impl SubscriptionLike for SharedSubscription {
 	}
 }
 
+impl TeardownCollection for SharedSubscription {
+	fn add_teardown(&mut self, teardown: Teardown) {
+		match self.subscription.try_lock() {
+			Ok(mut subscription) => subscription.add_teardown(teardown),
+			// It can be the one holding the lock that adds this teardown
+			Err(TryLockError::WouldBlock) => self
+				.deferred_state
+				.lock_ignore_poison()
+				.deferred_teardowns
+				.push(teardown),
+			Err(TryLockError::Poisoned(poison_error)) => {
+				teardown.execute();
+				poison_error.into_inner().unsubscribe();
+			}
+		}
+
+		self.try_apply_deferred();
+	}
+}
+
 impl Drop for SharedSubscription {
 	fn drop(&mut self) {
 		// Don't do anything, it's shared
diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index d9514f8..d29304f 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -6,7 +6,7 @@ use std::{
 use derive_where::derive_where;
 use rx_core_common::{
 	LockWithPoisonBehavior, RxObserver, Signal, Subscriber, SubscriberState,
-	SubscriptionClosedFlag, SubscriptionLike,
+	SubscriptionClosedFlag, SubscriptionLike, TeardownCollection,
 };
 
 use crate::internal::{
@@ -57,6 +57,9 @@ where
 			MulticastNotification::Add(id, subscriber) => {
 				self.add_subscriber(id, subscriber);
 			}
+			MulticastNotification::AddTeardown(mut subscriber, teardown) => {
+				subscriber.add_teardown(teardown);
+			}
 		}
 	}
 
@@ -183,6 +186,7 @@ where
 					|| matches!(
 						&notification,
 						MulticastNotification::UnsubscribeById(_)
+							| MulticastNotification::AddTeardown(_, _)
 					);
 
 				// Other notifications can be safely dropped when already closed
@@ -342,6 +346,7 @@ where
 			notification,
 			MulticastNotification::Unsubscribe
 				| MulticastNotification::UnsubscribeById(_)
+				| MulticastNotification::AddTeardown(_, _)
 		);
 
 		if *self.closed_flag && !is_about_subscription {
diff --git a/crates/rx_core_subject_publish/src/multicast_notification.rs b/crates/rx_core_subject_publish/src/multicast_notification.rs
index 7f1d1c4..153b2dc 100644
--- a/crates/rx_core_subject_publish/src/multicast_notification.rs
+++ b/crates/rx_core_subject_publish/src/multicast_notification.rs
@@ -1,7 +1,7 @@
 use std::sync::{Arc, Mutex};
 
 use derive_where::derive_where;
-use rx_core_common::{Signal, Subscriber};
+use rx_core_common::{Signal, Subscriber, Teardown};
 
 use crate::internal::MulticastSubscriberId;
 
@@ -23,4 +23,11 @@ where
 		MulticastSubscriberId,
 		Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
 	),
+	/// Adds a teardown to a subscriber that was being signalled when the
+	/// teardown was added to its subscription.
+	#[derive_where(skip_inner(Debug))]
+	AddTeardown(
+		Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
+		Teardown,
+	),
 }
diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 51f020d..216ca45 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -109,11 +109,29 @@ where
 	InError: Signal + Clone,
 {
 	fn add_teardown(&mut self, teardown: Teardown) {
-		if let Some(subscriber) = &mut self.subscriber {
-			subscriber.add_teardown(teardown);
-		} else {
+		let Some(subscriber) = &mut self.subscriber else {
 			teardown.execute();
+			return;
+		};
+
+		match subscriber.try_lock() {
+			Ok(mut subscriber) => subscriber.add_teardown(teardown),
+			// Is being signalled right now, potentially adding it from within
+			Err(TryLockError::WouldBlock) => {
+				self.state
+					.lock_ignore_poison()
+					.defer_notification(MulticastNotification::AddTeardown(
+						subscriber.clone(),
+						teardown,
+					));
+			}
+			Err(TryLockError::Poisoned(poison_error)) => {
+				teardown.execute();
+				poison_error.into_inner().unsubscribe();
+			}
 		}
+
+		self.subscribers.try_apply_deferred();
 	}
 }
 
-- 
2.43.0


From fbff3ff510b4d277aae8a4794428706333d9f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:30 +0000
Subject: [PATCH 20/61] fix: racing inner subscriptions must neither stay open
 nor lose the terminal of a flattened observable

---
 .../src/higher_order_subscriber_inner.rs      | 29 +++++--
 .../src/higher_order_subscriber_state.rs      | 30 ++++---
 .../src/concurrent_subscriber.rs              | 13 ++-
 .../src/exhaust_subscriber.rs                 | 70 +++++++++++----
 .../src/lib.rs                                |  1 +
 .../src/switch_subscriber.rs                  | 86 ++++++++++++++-----
 .../src/switch_subscriber_state.rs            | 38 ++++++++
 7 files changed, 208 insertions(+), 59 deletions(-)
 create mode 100644 crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber_state.rs

diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
index 63d2818..c21a482 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
@@ -82,18 +82,22 @@ where
 
 	fn error(&mut self, error: Self::InError) {
 		if !self.is_closed() {
-			let downstream_can_error = {
-				let mut state = self.state.lock_ignore_poison();
-				// Another inner subscriber may have already closed it
-				let downstream_can_error = !state.downstream_subscriber_state.is_closed();
-				if downstream_can_error {
-					state.downstream_error();
-				}
-				downstream_can_error
-			};
+			// Another inner subscriber may have already closed it
+			let downstream_can_error = !self
+				.state
+				.lock_ignore_poison()
+				.downstream_subscriber_state
+				.is_closed();
 
 			if downstream_can_error {
 				self.shared_destination.error(error);
+
+				// Only once signalled, otherwise others could see it errored
+				// and unsubscribe the destination before it would be
+				let mut state = self.state.lock_ignore_poison();
+				if !state.downstream_subscriber_state.is_closed() {
+					state.downstream_error();
+				}
 			}
 			self.unsubscribe();
 		}
@@ -112,6 +116,13 @@ where
 				.inner_completed_can_downstream()
 			{
 				self.shared_destination.complete();
+
+				// Only once signalled, otherwise others could see it completed
+				// and unsubscribe the destination before it would be
+				let mut state = self.state.lock_ignore_poison();
+				if !state.downstream_subscriber_state.is_closed() {
+					state.downstream_subscriber_state.complete();
+				}
 			}
 
 			self.unsubscribe();
diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
index 827bcac..34d4f05 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
@@ -36,6 +36,8 @@ where
 	pub non_unsubscribed_subscriptions: usize,
 	pub upstream_subscriber_state: SubscriberState,
 	pub downstream_subscriber_state: SubscriberState,
+	/// Whether the inner subscription that was unsubscribed last had completed
+	last_unsubscribed_completed: bool,
 }
 
 impl<State> HigherOrderSubscriberState<State>
@@ -49,6 +51,7 @@ where
 			non_unsubscribed_subscriptions: 0,
 			upstream_subscriber_state: SubscriberState::default(),
 			downstream_subscriber_state: SubscriberState::default(),
+			last_unsubscribed_completed: false,
 		}
 	}
 
@@ -68,9 +71,19 @@ where
 			|| self.downstream_subscriber_state.is_closed()
 	}
 
+	/// Upstream could complete on another thread after the last inner
+	/// subscription completed, but before it was unsubscribed. Then what
+	/// remains is a completion, not just an unsubscription.
+	pub fn last_unsubscribed_can_complete_downstream(&self) -> bool {
+		self.last_unsubscribed_completed && self.can_downstream_complete()
+	}
+
 	pub fn upstream_completed_can_downstream(&mut self) -> bool {
-		self.upstream_subscriber_state.complete();
-		self.upstream_subscriber_state.unsubscribe();
+		// Downstream could've closed it on another thread
+		if !self.upstream_subscriber_state.is_closed() {
+			self.upstream_subscriber_state.complete();
+			self.upstream_subscriber_state.unsubscribe();
+		}
 
 		self.can_downstream_complete()
 	}
@@ -78,13 +91,7 @@ where
 	pub(crate) fn inner_completed_can_downstream(&mut self) -> bool {
 		self.non_completed_subscriptions -= 1;
 
-		let downstream_can_complete = self.can_downstream_complete();
-
-		if downstream_can_complete {
-			self.downstream_subscriber_state.complete();
-		}
-
-		downstream_can_complete
+		self.can_downstream_complete()
 	}
 
 	pub(crate) fn inner_unsubscribed_and_downstream_is_not_yet_unsubscribed(
@@ -101,6 +108,7 @@ where
 				.unsubscribe_if_not_already();
 		}
 
+		self.last_unsubscribed_completed = inner_completed;
 		self.non_unsubscribed_subscriptions -= 1;
 		if !inner_completed {
 			self.non_completed_subscriptions -= 1;
@@ -111,7 +119,9 @@ where
 
 	pub fn upstream_error(&mut self) {
 		self.state.on_upstream_error();
-		self.upstream_subscriber_state.error();
+		if !self.upstream_subscriber_state.is_closed() {
+			self.upstream_subscriber_state.error();
+		}
 	}
 
 	pub fn downstream_error(&mut self) {
diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 7318289..c46b6e9 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -147,6 +147,7 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 	let inner_subscriptions_clone = inner_subscriptions.clone();
 
 	let outer_teardown_on_complete_clone = outer_teardown.clone();
+	let outer_teardown_clone = outer_teardown.clone();
 	let mut outer_teardown_on_unsubscribe = outer_teardown.clone();
 	let mut shared_destination_on_unsubscribe = shared_destination.clone();
 
@@ -181,11 +182,16 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 
 			let mut state_lock = state.lock_ignore_poison();
 			let can_unsubscribe = state_lock.can_downstream_unsubscribe();
+			let can_complete = state_lock.last_unsubscribed_can_complete_downstream();
 			let upstream_errored = state_lock.upstream_subscriber_state.is_errored();
 			let downstream_errored = state_lock.downstream_subscriber_state.is_errored();
 			drop(state_lock);
 
 			if can_unsubscribe && !upstream_errored && !downstream_errored {
+				if can_complete {
+					shared_destination_on_unsubscribe.complete();
+				}
+
 				shared_destination_on_unsubscribe.unsubscribe();
 				outer_teardown_on_unsubscribe.unsubscribe();
 			}
@@ -194,10 +200,15 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 
 	if !next_subscription.is_closed() {
 		let mut slab = inner_subscriptions_clone.lock_ignore_poison();
-		if let Some(entry) = slab.get_mut(key) {
+		// Once closed, the teardown may have drained the entries before this
+		// one was inserted.
+		if !outer_teardown_clone.is_closed()
+			&& let Some(entry) = slab.get_mut(key)
+		{
 			entry.add(next_subscription);
 		} else {
 			// The entry may have been removed by teardown; ensure the subscription is closed.
+			drop(slab);
 			let mut orphan = next_subscription;
 			if !orphan.is_closed() {
 				orphan.unsubscribe();
diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 8cf9688..80f904f 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -6,7 +6,7 @@ use std::{
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
@@ -26,7 +26,7 @@ where
 	outer_teardown: SharedSubscription,
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
 
@@ -37,11 +37,25 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination) -> Self {
+		let inner_subscription = Arc::new(Mutex::new(None::<SubscriptionData>));
+		let inner_subscription_on_unsubscribe = inner_subscription.clone();
+		let mut outer_teardown = SharedSubscription::default();
+
+		outer_teardown.add_fn(move || {
+			let inner_subscription = inner_subscription_on_unsubscribe
+				.lock_ignore_poison()
+				.take();
+
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
+		});
+
 		Self {
-			outer_teardown: SharedSubscription::default(),
+			outer_teardown,
 			shared_destination: SharedSubscriber::new(destination),
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
-			inner_subscription: None,
+			inner_subscription,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -61,8 +75,9 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
-				inner_subscription.unsubscribe();
+			let replaced_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut replaced_subscription) = replaced_subscription {
+				replaced_subscription.unsubscribe();
 			}
 
 			let state_on_unsubscribe_clone = self.state.clone();
@@ -76,10 +91,19 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if state_on_unsubscribe_clone
-						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
-					{
+					let (can_unsubscribe, can_complete) = {
+						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						(
+							state.can_downstream_unsubscribe(),
+							state.last_unsubscribed_can_complete_downstream(),
+						)
+					};
+
+					if can_unsubscribe {
+						if can_complete {
+							shared_destination_on_unsubscribe.complete();
+						}
+
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
 						shared_destination_on_unsubscribe.unsubscribe();
 					}
@@ -87,17 +111,31 @@ where
 			));
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
+				let mut subscription = SubscriptionData::new_with_teardown(subscription.into());
+				let mut inner_subscription = self.inner_subscription.lock_ignore_poison();
+
+				// Once closed, nothing would release what's stored here
+				if self.outer_teardown.is_closed() {
+					drop(inner_subscription);
+					subscription.unsubscribe();
+				} else {
+					inner_subscription.replace(subscription);
+				}
+			}
+
+			if self.is_closed() {
+				self.unsubscribe();
 			}
 		}
 	}
 
 	fn error(&mut self, error: Self::InError) {
 		if !self.is_closed() {
-			self.state.lock_ignore_poison().upstream_error();
-
 			self.shared_destination.error(error);
+
+			// Only once signalled, otherwise inner subscribers on other threads
+			// could unsubscribe the destination before it would be
+			self.state.lock_ignore_poison().upstream_error();
 			self.unsubscribe();
 		}
 	}
@@ -129,10 +167,6 @@ where
 
 	fn unsubscribe(&mut self) {
 		if !self.outer_teardown.is_closed() {
-			if let Some(subscription_handle) = &mut self.inner_subscription {
-				subscription_handle.unsubscribe();
-			};
-
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 		}
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/lib.rs b/crates/rx_core_subscriber_higher_order_switch/src/lib.rs
index 2f5d776..c564ee4 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/lib.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/lib.rs
@@ -1,5 +1,6 @@
 mod switch_subscriber;
 mod switch_subscriber_provider;
+mod switch_subscriber_state;
 
 pub use switch_subscriber::*;
 pub use switch_subscriber_provider::*;
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index 18de9a3..64caa9d 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -8,10 +8,12 @@ use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
 
+use crate::switch_subscriber_state::SwitchSubscriberState;
+
 /// A subscriber that switches to new inner observables, unsubscribing from the previous one.
 #[derive(RxSubscriber)]
 #[rx_in(InnerObservable)]
@@ -23,8 +25,8 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	shared_destination: SharedSubscriber<Destination>,
-	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
-	inner_subscription: Option<SubscriptionData>,
+	state: Arc<Mutex<HigherOrderSubscriberState<SwitchSubscriberState>>>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -36,11 +38,25 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination) -> Self {
+		let inner_subscription = Arc::new(Mutex::new(None::<SubscriptionData>));
+		let inner_subscription_on_unsubscribe = inner_subscription.clone();
+		let mut outer_teardown = SharedSubscription::default();
+
+		outer_teardown.add_fn(move || {
+			let inner_subscription = inner_subscription_on_unsubscribe
+				.lock_ignore_poison()
+				.take();
+
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
+		});
+
 		Self {
-			outer_teardown: SharedSubscription::default(),
+			outer_teardown,
 			shared_destination: SharedSubscriber::new(destination),
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
-			inner_subscription: None,
+			inner_subscription,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -57,26 +73,47 @@ where
 			let mut state_lock = self.state.lock_ignore_poison();
 			state_lock.non_completed_subscriptions += 1;
 			state_lock.non_unsubscribed_subscriptions += 1;
+			let key = state_lock.state.next_key();
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
-				inner_subscription.unsubscribe();
+			let replaced_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut replaced_subscription) = replaced_subscription {
+				replaced_subscription.unsubscribe();
 			}
 
+			let state_on_complete_clone = self.state.clone();
 			let state_on_unsubscribe_clone = self.state.clone();
 			let mut outer_teardown_on_unsubscribe_clone = self.outer_teardown.clone();
 			let mut shared_destination_on_unsubscribe_clone = self.shared_destination.clone();
 
 			let subscription = next.subscribe(HigherOrderInnerSubscriber::new(
-				0,
+				key,
 				self.shared_destination.clone(),
 				self.state.clone(),
-				move |_| {},
-				move |_| {
-					if state_on_unsubscribe_clone
+				move |key| {
+					state_on_complete_clone
 						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
-					{
+						.state
+						.complete_key(key);
+				},
+				move |_| {
+					let (can_unsubscribe, can_complete) = {
+						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						(
+							state.can_downstream_unsubscribe(),
+							state.state.is_last_completed()
+								&& state.upstream_subscriber_state.is_completed()
+								&& !state.downstream_subscriber_state.is_errored(),
+						)
+					};
+
+					if can_unsubscribe {
+						// The one unsubscribed last could be one that was
+						// replaced while another thread was using it
+						if can_complete {
+							shared_destination_on_unsubscribe_clone.complete();
+						}
+
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
 						shared_destination_on_unsubscribe_clone.unsubscribe();
 					}
@@ -84,11 +121,19 @@ where
 			));
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
+				let mut subscription = SubscriptionData::new_with_teardown(subscription.into());
+				let mut inner_subscription = self.inner_subscription.lock_ignore_poison();
+
+				// Once closed, nothing would release what's stored here
+				if self.outer_teardown.is_closed() {
+					drop(inner_subscription);
+					subscription.unsubscribe();
+				} else {
+					inner_subscription.replace(subscription);
+				}
 			}
 
-			if self.shared_destination.is_closed() {
+			if self.is_closed() {
 				self.unsubscribe();
 			}
 		}
@@ -96,9 +141,11 @@ where
 
 	fn error(&mut self, error: Self::InError) {
 		if !self.is_closed() {
-			self.state.lock_ignore_poison().upstream_error();
-
 			self.shared_destination.error(error);
+
+			// Only once signalled, otherwise inner subscribers on other threads
+			// could unsubscribe the destination before it would be
+			self.state.lock_ignore_poison().upstream_error();
 			self.unsubscribe();
 		}
 	}
@@ -148,9 +195,6 @@ where
 		if !self.outer_teardown.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
-			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-				subscription_handle.unsubscribe();
-			};
 		}
 	}
 }
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber_state.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber_state.rs
new file mode 100644
index 0000000..bc9c251
--- /dev/null
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber_state.rs
@@ -0,0 +1,38 @@
+use rx_core_subscriber_higher_order::HigherOrderSubscriberStateConditions;
+
+#[derive(Default)]
+pub(crate) struct SwitchSubscriberState {
+	last_key: usize,
+	last_completed: bool,
+}
+
+impl SwitchSubscriberState {
+	/// The key of the inner subscription replacing the last one
+	pub(crate) fn next_key(&mut self) -> usize {
+		self.last_key = self.last_key.wrapping_add(1);
+		self.last_completed = false;
+		self.last_key
+	}
+
+	pub(crate) fn complete_key(&mut self, key: usize) {
+		self.last_completed |= key == self.last_key;
+	}
+
+	pub(crate) fn is_last_completed(&self) -> bool {
+		self.last_completed
+	}
+}
+
+impl HigherOrderSubscriberStateConditions for SwitchSubscriberState {
+	fn can_downstream_complete(&self) -> bool {
+		true
+	}
+
+	fn can_downstream_unsubscribe(&self) -> bool {
+		true
+	}
+
+	fn on_upstream_error(&mut self) {}
+
+	fn on_downstream_error(&mut self) {}
+}
-- 
2.43.0


From 0b5a78e2cb7087d2ecfc62711656adf51fe8e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 21/61] fix: deferred signals must not reach a destination that
 closed on its own meanwhile

---
 .../src/subscribers/subscriber_shared.rs             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index fdfbf94..75e916e 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -262,14 +262,14 @@ where
 			for notification in notifications.into_iter() {
 				let is_closing = notification.is_closing();
 				// The destination can still be open after it was completed
-				let is_needed_unsubscribe =
-					matches!(notification, SubscriberNotification::Unsubscribe)
-						&& !subscriber.is_closed();
+				let is_unsubscribe = matches!(notification, SubscriberNotification::Unsubscribe);
 
 				// Other notifications can be safely dropped when already closed
-				if is_needed_unsubscribe
-					|| !state.lock_clear_poison().is_closed_ignoring_deferred()
-				{
+				let is_needed = is_unsubscribe
+					|| !state.lock_clear_poison().is_closed_ignoring_deferred();
+
+				// It could've closed on its own since it was deferred
+				if is_needed && !subscriber.is_closed() {
 					subscriber.push(notification);
 				}
 
-- 
2.43.0


From 44ec0a606e7d6dd77c9b8d70f9060b8e9405d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 22/61] fix: an interval unsubscribed by its own value must not
 emit the rest, nor deadlock

---
 .../src/interval_subscription.rs                          | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_observable_interval/src/interval_subscription.rs b/crates/rx_core_observable_interval/src/interval_subscription.rs
index addcea8..ead7888 100644
--- a/crates/rx_core_observable_interval/src/interval_subscription.rs
+++ b/crates/rx_core_observable_interval/src/interval_subscription.rs
@@ -38,7 +38,7 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			let mut count = if interval_subscription_options.start_on_subscribe {
 				1
@@ -48,13 +48,11 @@ where
 
 			scheduler.schedule_repeated_work(
 				move |_, _| {
-					let mut destination_lock = destination_clone.lock();
-
-					if destination_lock.is_closed() {
+					if destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
-					destination_lock.next(count);
+					destination_clone.next(count);
 					count += 1;
 
 					WorkResult::Pending
-- 
2.43.0


From d4a8d8f285e9352b18b221c33cbfbc03334f48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 23/61] fix: an iterator on tick must complete when it has
 nothing left, but not once unsubscribed

---
 .../src/iterator_on_tick_subscription.rs      | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 76592c0..56915c9 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -70,6 +70,18 @@ where
 			destination.next(next);
 		}
 
+		// There would be nothing to emit on any tick
+		if peekable_iterator.peek().is_none() {
+			destination.complete();
+
+			return OnTickIteratorSubscription {
+				destination,
+				owner_id: None,
+				scheduler,
+				_phantom_data: PhantomData,
+			};
+		}
+
 		let owner_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let owner_id = scheduler.generate_cancellation_id();
@@ -85,8 +97,7 @@ where
 				move |_, _context| {
 					state.observed_ticks += 1;
 
-					let mut destination = state.destination.lock();
-					if destination.is_closed() {
+					if state.destination.is_closed() {
 						return WorkResult::Done;
 					}
 
@@ -96,9 +107,9 @@ where
 						&& let Some(value) = state.peekable_iterator.next()
 					{
 						state.observed_ticks = 0;
-						destination.next(value);
+						state.destination.next(value);
 						if state.peekable_iterator.peek().is_none() {
-							destination.complete();
+							state.destination.complete();
 							WorkResult::Done
 						} else {
 							WorkResult::Pending
-- 
2.43.0


From b36174c3601268c61b7d7809db2e0075818c395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 24/61] fix: a timer unsubscribed by its own value must not
 complete, and leaves no work behind

---
 .../src/timer_subscription.rs                 | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index 95b9bb4..9c5f7df 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -1,8 +1,8 @@
 use std::time::Duration;
 
 use rx_core_common::{
-	Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber, Subscriber,
-	SubscriptionLike, WorkCancellationId,
+	RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber,
+	Subscriber, SubscriptionLike, Teardown, TeardownCollection, WorkCancellationId,
 };
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -22,7 +22,7 @@ where
 impl<Destination, S> TimerSubscription<Destination, S>
 where
 	Destination: 'static + Subscriber<In = ()>,
-	S: Scheduler,
+	S: 'static + Scheduler,
 {
 	pub fn new(
 		destination: Destination,
@@ -30,19 +30,16 @@ where
 		scheduler: SchedulerHandle<S>,
 	) -> Self {
 		let scheduler_clone = scheduler.clone();
-		let destination = SharedSubscriber::new(destination);
+		let mut destination = SharedSubscriber::new(destination);
 		let cancellation_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			scheduler.schedule_delayed_work(
 				move |_, _| {
-					let mut destination = destination_clone.lock();
-					destination.next(());
-					if !destination.is_closed() {
-						destination.complete();
-					}
+					destination_clone.next(());
+					destination_clone.complete();
 				},
 				duration,
 				cancellation_id,
@@ -51,6 +48,11 @@ where
 			cancellation_id
 		};
 
+		destination.add_teardown(Teardown::new_work_cancellation(
+			cancellation_id,
+			scheduler.clone(),
+		));
+
 		TimerSubscription {
 			destination,
 			scheduler,
-- 
2.43.0


From 8b8385db63a7cd090622eabc1c9a73b3baa70bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 25/61] fix: a value superseded within the tick it is due in
 must not be emitted

---
 .../src/debounce_time_subscriber.rs           | 49 ++++++++++---------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index 9b1d943..fbf0f31 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -29,7 +29,10 @@ where
 	cancellation_id: WorkCancellationId,
 	upstream_completed: Arc<AtomicBool>,
 	upstream_unsubscribed: Arc<AtomicBool>,
-	scheduled_work_counter: Arc<AtomicUsize>,
+	/// Identifies the last scheduled work
+	last_work_id: usize,
+	/// The id of the work that's yet to be executed, `0` if there is none
+	pending_work_id: Arc<AtomicUsize>,
 }
 
 impl<Destination, S> DebounceTimeSubscriber<Destination, S>
@@ -54,7 +57,8 @@ where
 			cancellation_id,
 			upstream_completed: Arc::new(AtomicBool::new(false)),
 			upstream_unsubscribed: Arc::new(AtomicBool::new(false)),
-			scheduled_work_counter: Arc::new(AtomicUsize::new(0)),
+			last_work_id: 0,
+			pending_work_id: Arc::new(AtomicUsize::new(0)),
 		}
 	}
 }
@@ -66,38 +70,37 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
-		let scheduled_work_counter = self.scheduled_work_counter.clone();
+		let mut destination = self.destination.clone();
+		let pending_work_id = self.pending_work_id.clone();
 		let upstream_completed = self.upstream_completed.clone();
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 
 		let mut scheduler = self.scheduler.lock();
 		scheduler.cancel(self.cancellation_id);
-		self.scheduled_work_counter.store(1, Ordering::Relaxed);
+		self.last_work_id += 1;
+		let work_id = self.last_work_id;
+		self.pending_work_id.store(work_id, Ordering::Relaxed);
 		scheduler.schedule_delayed_work(
 			move |_, _| {
-				let mut destination = destination.lock();
-				if !destination.is_closed() {
-					destination.next(next);
+				// Could've been superseded within the same tick, before the
+				// cancellation of this work is processed
+				if pending_work_id.load(Ordering::Relaxed) != work_id {
+					return;
 				}
 
-				let previous_work_counter_before_sub =
-					scheduled_work_counter.swap(0, Ordering::Relaxed);
+				destination.next(next);
 
-				// try complete
-				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
-					&& !destination.is_closed()
+				// Another one could've been scheduled in reaction to this one
+				if pending_work_id
+					.compare_exchange(work_id, 0, Ordering::Relaxed, Ordering::Relaxed)
+					.is_err()
 				{
-					destination.complete();
 					return;
 				}
 
-				// try unsubscribe
-				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
-					&& !destination.is_closed()
-				{
+				if upstream_completed.load(Ordering::Relaxed) {
+					destination.complete();
+				} else if upstream_unsubscribed.load(Ordering::Relaxed) {
 					destination.unsubscribe();
 				}
 			},
@@ -109,7 +112,7 @@ where
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
-		self.scheduled_work_counter.store(0, Ordering::Relaxed);
+		self.pending_work_id.store(0, Ordering::Relaxed);
 		self.scheduler.lock().cancel(self.cancellation_id);
 		self.destination.error(error);
 	}
@@ -121,7 +124,7 @@ where
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 
 		// if there aren't any, complete immediately
-		if self.scheduled_work_counter.load(Ordering::Relaxed) == 0 {
+		if self.pending_work_id.load(Ordering::Relaxed) == 0 {
 			self.destination.complete();
 		}
 	}
@@ -143,7 +146,7 @@ where
 			self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 
 			// if there aren't any, unsubscribe immediately
-			if self.scheduled_work_counter.load(Ordering::Relaxed) == 0 {
+			if self.pending_work_id.load(Ordering::Relaxed) == 0 {
 				self.destination.unsubscribe();
 			}
 		}
-- 
2.43.0


From 1461ca200d010ef92e0fbc23b504528d1a5f0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 26/61] fix: fallback_when_silent must stop once its
 destination is closed

---
 .../src/fallback_when_silent_subscriber.rs                    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
index 75c037f..1b92082 100644
--- a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
+++ b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
@@ -67,6 +67,10 @@ where
 		let mut index = 0;
 		scheduler.schedule_continuous_work(
 			move |tick, context| {
+				if shared_destination_clone.is_closed() {
+					return WorkResult::Done;
+				}
+
 				let observed_next = {
 					let mut state = shared_state_clone.lock().unwrap_or_else(|a| a.into_inner());
 					state.next_observed_this_tick.take()
-- 
2.43.0


From 07a226f5f6fb1ea988986aff51a24fd8928c5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 27/61] fix: an error from within a value's own callback must
 not be lost by observe_on

---
 .../rx_core_operator_observe_on/src/observe_on_subscriber.rs   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 19c255e..32780b8 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -57,7 +57,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 
 		self.scheduled_work_counter.fetch_add(1, Ordering::Relaxed);
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
@@ -65,7 +65,6 @@ where
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 		self.scheduler.lock().schedule_immediate_work(
 			move |_, _| {
-				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
-- 
2.43.0


From 0f67a2bdb4b5f245a3e055657bdb8d82776a556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 28/61] fix: a tick going past the deadline of throttle_time
 must not lose the trailing value, nor panic

---
 .../src/throttle_time_subscriber.rs           | 62 +++++++++----------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 381f2f4..93d86b8 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -88,43 +88,35 @@ where
 					let mut state = state.lock_ignore_poison();
 					state.last_tick_time = tick.now();
 
-					let deadline = state
-						.throttle_deadline
-						.expect("scheduled work always has an active throttle deadline");
+					// Upstream could've finished earlier within the same tick, before
+					// the cancellation of this work is processed
+					let Some(deadline) = state.throttle_deadline else {
+						return WorkResult::Done;
+					};
 
 					if state.last_tick_time < deadline {
 						return WorkResult::Pending;
 					}
 
-					if deadline < state.last_tick_time {
-						state.throttle_deadline = None;
-
-						(
-							false,
-							None,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					// The deadline isn't necessarily hit exactly, ticks can be longer
+					let emit_value = if options.output_behavior.emits_trailing() {
+						state.last_value.take()
 					} else {
-						let emit_value = if options.output_behavior.emits_trailing() {
-							state.last_value.take()
-						} else {
-							state.last_value = None;
-							None
-						};
-
-						let continue_for_cooldown = emit_value.is_some();
-						if !continue_for_cooldown {
-							state.throttle_deadline = None;
-						}
+						state.last_value = None;
+						None
+					};
 
-						(
-							continue_for_cooldown,
-							emit_value,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					let continue_for_cooldown = emit_value.is_some();
+					if !continue_for_cooldown {
+						state.throttle_deadline = None;
 					}
+
+					(
+						continue_for_cooldown,
+						emit_value,
+						state.upstream_state.is_completed(),
+						state.upstream_state.is_closed_but_not_completed(),
+					)
 				};
 
 				if let Some(value) = emit_value {
@@ -184,11 +176,13 @@ where
 				Some(_) => {
 					// Throttle over, start new window
 					state.throttle_deadline = Some(state.last_tick_time + self.options.duration);
-					debug_assert!(
-						self.options.output_behavior.emits_trailing(),
-						"cooldown can only occur when trailing is enabled"
-					);
-					state.last_value = Some(next);
+					if self.options.output_behavior.emits_trailing() {
+						state.last_value = Some(next);
+					} else {
+						// Without trailing, it can only be over already if the window
+						// has no duration
+						self.destination.next(next);
+					}
 				}
 			};
 			was_idle
-- 
2.43.0


From cd188e331e968832f66d54e62e89aca68aa539e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 29/61] fix: what finishes an adsr from the callback of its
 signal must not be lost

---
 crates/rx_core_operator_adsr/src/adsr_subscriber.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
index 669b5b5..8f233e1 100644
--- a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
+++ b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
@@ -58,7 +58,7 @@ where
 			options,
 		}));
 		let shared_state_clone = shared_state.clone();
-		let shared_destination_clone = shared_destination.clone();
+		let mut shared_destination_clone = shared_destination.clone();
 		let scheduler_clone = scheduler.clone();
 		let mut scheduler_lock = scheduler_clone.lock();
 		let cancellation_id = scheduler_lock.generate_cancellation_id();
@@ -66,8 +66,7 @@ where
 		let mut envelope_state = AdsrEnvelopeState::default();
 		scheduler_lock.schedule_continuous_work(
 			move |tick, _context| {
-				let mut destination_lock = shared_destination_clone.lock();
-				if destination_lock.is_closed() {
+				if shared_destination_clone.is_closed() {
 					return WorkResult::Done;
 				}
 
@@ -110,8 +109,8 @@ where
 				};
 
 				if let Some(next) = next {
-					destination_lock.next(next);
-					if destination_lock.is_closed() {
+					shared_destination_clone.next(next);
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 				}
-- 
2.43.0


From 8aad3203e512f2b27f5528730f19386230eb8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 30/61] fix: a restarted envelope must not stand still for a
 tick

---
 crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
index 86f5de5..6779991 100644
--- a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
+++ b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
@@ -64,9 +64,11 @@ impl AdsrEnvelopeState {
 			self.adsr_envelope_phase,
 		);
 
+		// On a restart it has stopped too, but what's started must keep going
 		if self
 			.adsr_phase_transition
 			.contains(AdsrEnvelopePhaseTransition::Stop)
+			&& adsr_envelope_phase == AdsrEnvelopePhase::None
 		{
 			self.reset();
 		}
-- 
2.43.0


From 19d8b865dc83a35c4c4b03ed9209a31ee3e219a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 31/61] fix: zip is over once one of its sources can't have
 more pairs

---
 crates/rx_core_observable_zip/src/zip_subscriber.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index b8537d2..0288efb 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -75,20 +75,17 @@ where
 	}
 
 	fn try_complete(&mut self) {
+		// The state of a queue reflects its front, when one of them is over, there
+		// can't be any more pairs, even if there's something left in the other
 		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_completed() && self.o2_queue.is_completed())
-				|| (self.o1_queue.is_completed() && self.o2_queue.is_empty())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_completed()))
+			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_closed() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_closed() && self.o2_queue.is_empty()))
+		if !self.destination.is_closed() && (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
 			self.destination.unsubscribe();
 		}
-- 
2.43.0


From 31e4ffc74f08c4a902906d1ebeea786e86823be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 32/61] fix: with_latest_from must release the other observable
 when downstream closes

---
 .../src/with_latest_from_subscriber.rs               | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
index 1833da2..359f503 100644
--- a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
+++ b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
@@ -4,8 +4,8 @@ use std::{
 };
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Observable, ObserverSubscriber, PhantomInvariant, RxObserver,
-	SharedSubscriber, Signal, Subscriber, SubscriptionLike,
+	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber, Signal,
+	Subscriber, SubscriptionLike, TeardownCollection,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -25,9 +25,6 @@ where
 {
 	#[destination]
 	destination: SharedSubscriber<Destination>,
-	inner_subscription: <InnerObservable as Observable>::Subscription<
-		ObserverSubscriber<WithLatestFromInnerDestination<InnerObservable::Out, Destination>>,
-	>,
 	state: Arc<Mutex<WithLatestFromInnerDestinationState<InnerObservable::Out>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -40,16 +37,16 @@ where
 	Destination: Subscriber<In = (In, InnerObservable::Out), InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, inner_observable: &mut InnerObservable) -> Self {
-		let shared_destination = SharedSubscriber::new(destination);
+		let mut shared_destination = SharedSubscriber::new(destination);
 		let inner_destination =
 			WithLatestFromInnerDestination::<InnerObservable::Out, Destination>::new(
 				shared_destination.clone(),
 			);
 		let state = inner_destination.get_state();
 		let inner_subscription = inner_observable.subscribe(inner_destination);
+		shared_destination.add_teardown(inner_subscription.into());
 		Self {
 			destination: shared_destination,
-			inner_subscription,
 			state,
 			_phantom_data: PhantomData,
 		}
@@ -98,7 +95,6 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		self.inner_subscription.unsubscribe();
 		self.destination.unsubscribe();
 	}
 }
-- 
2.43.0


From 3f319defb4d3b7b3dda88ba3035517806ffb9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 33/61] fix: take(0) completed, even if downstream stays open

---
 crates/rx_core_operator_take/src/take_subscriber.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index bd8a50d..1acca04 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -26,7 +26,8 @@ where
 			destination.complete();
 		}
 
-		let closed: SubscriptionClosedFlag = destination.is_closed().into();
+		// Completed already, even if downstream stays open
+		let closed: SubscriptionClosedFlag = (count == 0 || destination.is_closed()).into();
 
 		Self {
 			destination,
-- 
2.43.0


From 169953e8f152826f993e4ff3e26a2759c44c71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:00 +0000
Subject: [PATCH 34/61] fix: catch must not relay its source once it errored

---
 crates/rx_core_operator_catch/src/catch_subscriber.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index 57fa732..6f07003 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -61,6 +61,11 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		if self.error_mapper.is_none() {
+			// Once errored, only the next observable may signal downstream
+			return;
+		}
+
 		self.shared_destination.next(next);
 
 		if self.shared_destination.is_closed() {
@@ -127,6 +132,7 @@ where
 	#[inline]
 	fn complete(&mut self) {
 		if !self.is_closed()
+			&& self.error_mapper.is_some()
 			&& self
 				.state
 				.lock_ignore_poison()
-- 
2.43.0


From 3097fdc1b0a8f7d195a6ca8b9eeb7e0af20f1f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:00 +0000
Subject: [PATCH 35/61] fix: retry must keep its last attempt, release failed
 ones and stop once closed

---
 .../src/retry_observable.rs                   | 27 +++++++----
 .../src/retry_subscriber.rs                   | 48 +++++++++++++++----
 2 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 30cea51..52a3dd4 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -85,23 +85,30 @@ where
 
 			immediate_retries += 1;
 
-			if caught_error.lock_ignore_poison().is_some() {
-				if let Some(mut last_subscription) = last_subscription.lock_ignore_poison().take() {
-					last_subscription.unsubscribe();
+			let is_destination_closed = shared_destination.is_closed();
+
+			if is_destination_closed || caught_error.lock_ignore_poison().is_some() {
+				let finished_subscription = last_subscription.lock_ignore_poison().take();
+				if let Some(mut finished_subscription) = finished_subscription {
+					finished_subscription.unsubscribe();
 				}
-				continue;
-			} else if shared_destination.is_closed() {
-				break;
 			} else {
 				outer_subscription.add(last_subscription);
 				break;
 			}
-		}
 
-		if immediate_retries > self.max_retries {
-			if let Some(error) = caught_error.lock_ignore_poison().take() {
-				shared_destination.error(error);
+			if is_destination_closed {
+				// There's nobody left to retry for
+				outer_subscription.unsubscribe();
+				break;
 			}
+		}
+
+		// Only an error that couldn't be retried anymore is left here, if the
+		// last attempt didn't fail it's still active!
+		let last_error = caught_error.lock_ignore_poison().take();
+		if let Some(error) = last_error {
+			shared_destination.error(error);
 			shared_destination.unsubscribe();
 			outer_subscription.unsubscribe();
 		}
diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index b57c4ac..3ddf82c 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, ObserverTerminalNotification, RxObserver, SharedSubscriber,
-	SharedSubscription, Subscriber, SubscriptionLike, TeardownCollectionExtension,
+	SharedSubscription, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -11,7 +12,6 @@ pub(crate) const SOURCE_STEAL: &str = "Source should be present!";
 #[derive(RxSubscriber)]
 #[rx_in(Destination::In)]
 #[rx_in_error(Destination::InError)]
-#[rx_delegate_teardown_collection]
 pub(crate) struct RetrySubscriber<Source, Destination>
 where
 	Source: 'static + Observable + Send + Sync,
@@ -26,6 +26,9 @@ where
 	outer_subscription: SharedSubscription,
 	last_subscription: Arc<Mutex<Option<SharedSubscription>>>,
 	caught_error: Arc<Mutex<Option<Source::OutError>>>,
+	/// What this attempt holds on to, released as soon as it failed, instead of
+	/// when the destination closes
+	teardown: SubscriptionData,
 }
 
 impl<Source, Destination> RetrySubscriber<Source, Destination>
@@ -51,12 +54,14 @@ where
 			retries,
 			caught_error,
 			last_subscription,
+			teardown: SubscriptionData::default(),
 		}
 	}
 
 	#[inline]
 	fn reset(&mut self) {
-		if let Some(mut last_subscription) = self.last_subscription.lock_ignore_poison().take()
+		let last_subscription = self.last_subscription.lock_ignore_poison().take();
+		if let Some(mut last_subscription) = last_subscription
 			&& !last_subscription.is_closed()
 		{
 			last_subscription.unsubscribe();
@@ -73,6 +78,7 @@ where
 			None => {}
 		}
 
+		self.teardown.unsubscribe();
 		self.outer_subscription.unsubscribe();
 		self.destination.unsubscribe();
 	}
@@ -85,14 +91,24 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		self.destination.next(next);
+		if !self.outer_subscription.is_closed() {
+			self.destination.next(next);
+		}
 
-		if self.destination.is_closed() {
+		if self.destination.is_closed() || self.outer_subscription.is_closed() {
 			self.unsubscribe();
 		}
 	}
 
-	fn error(&mut self, error: Self::InError) {
+	fn error(&mut self, mut error: Self::InError) {
+		self.teardown.unsubscribe();
+
+		if self.destination.is_closed() || self.outer_subscription.is_closed() {
+			// There's nobody left to retry for
+			self.finish();
+			return;
+		}
+
 		// If the source is "stolen", it's still owned by the observables
 		// subscribe method. It will check the caught error and retry there.
 		if self.source.lock_ignore_poison().is_none() {
@@ -123,7 +139,12 @@ where
 					.replace(SharedSubscription::new(next_subscription));
 			}
 
-			if self.caught_error.lock_ignore_poison().is_some() {
+			let caught_error = self.caught_error.lock_ignore_poison().take();
+			if let Some(caught_error) = caught_error {
+				if self.retries <= self.max_retries {
+					// That's the one that won't be retried if there's no more left
+					error = caught_error;
+				}
 				continue;
 			} else {
 				self.outer_subscription.add(self.last_subscription.clone());
@@ -145,6 +166,17 @@ where
 	}
 }
 
+impl<Source, Destination> TeardownCollection for RetrySubscriber<Source, Destination>
+where
+	Source: 'static + Observable + Send + Sync,
+	Destination: 'static + Subscriber<In = Source::Out, InError = Source::OutError>,
+{
+	#[inline]
+	fn add_teardown(&mut self, teardown: Teardown) {
+		self.teardown.add_teardown(teardown);
+	}
+}
+
 impl<Source, Destination> SubscriptionLike for RetrySubscriber<Source, Destination>
 where
 	Source: 'static + Observable + Send + Sync,
@@ -152,7 +184,7 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.destination.is_closed()
+		self.teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From 9585b0ba600f09878a2b2901227841b7f777a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 36/61] fix: connecting must not lock out its subscribers, nor
 leak or lose connections

The source was subscribed to while the connector was locked, and the connection
was only known afterwards: subscribers connecting, disconnecting, subscribing or
closing upon what the source emits immediately deadlocked or leaked it.
---
 .../src/connectable_observable.rs             | 217 ++++++++++++++----
 .../src/connection_handle.rs                  | 130 ++++++++++-
 .../src/internal/connection.rs                |  40 ++--
 .../src/internal/connection_lifecycle.rs      |  63 +++++
 .../src/internal/connection_state.rs          |  27 +--
 .../src/internal/connection_subscriber.rs     |  31 ++-
 .../src/internal/connector_state.rs           | 169 ++++----------
 .../src/internal/mod.rs                       |   2 +
 8 files changed, 452 insertions(+), 227 deletions(-)
 create mode 100644 crates/rx_core_observable_connectable/src/internal/connection_lifecycle.rs

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 84ca99e..fcc21c4 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -3,13 +3,15 @@ use std::sync::{Arc, Mutex};
 use derive_where::derive_where;
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, ObservableOutput, Provider, SubjectLike, Subscriber,
-	SubscriptionLike, TeardownCollection, TeardownCollectionExtension, UpgradeableObserver,
+	SubscriptionLike, SubscriptionWithTeardown, TeardownCollection, TeardownCollectionExtension,
+	UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
 
 use crate::{
 	internal::{
-		Connection, ConnectionOptions, ConnectionState, ConnectionSubscriber, ConnectorState,
+		Connection, ConnectionLifecycle, ConnectionOptions, ConnectionState, ConnectionSubscriber,
+		ConnectorState,
 	},
 	observable::{Connectable, ConnectableOptions, ConnectionHandle},
 };
@@ -28,14 +30,21 @@ where
 	ConnectorProvider::Provided: SubjectLike<In = Source::Out, InError = Source::OutError> + Clone,
 	ConnectionSubscription<Source, ConnectorProvider::Provided>: 'static + TeardownCollection,
 {
-	/// The only reason this field is behind an `Arc<RwLock>` is to be able to
-	/// pipe operators over a connectable observable.
-	/// ? It could very well be the case that piped operators are not even needed
-	/// ? for this ConnectableObservable as it is a low level component of other operators. (share)
-	/// ? if that's the case, revisit this and remove the arc
-	connector: Arc<Mutex<ConnectorState<Source, ConnectorProvider>>>,
+	/// Upon connection, the connector subject will subscribe to this source
+	/// observable
+	source: Arc<Mutex<Source>>,
+	connector: Arc<Mutex<ConnectorState<ConnectorProvider::Provided>>>,
+	connector_provider: Arc<Mutex<ConnectorProvider>>,
 	connection: Arc<Mutex<Connection<ConnectionSubscription<Source, ConnectorProvider::Provided>>>>,
 	connection_state: Arc<Mutex<ConnectionState>>,
+	reset_options: ResetOptions,
+}
+
+#[derive(Clone, Copy)]
+struct ResetOptions {
+	on_disconnect: bool,
+	on_complete: bool,
+	on_error: bool,
 }
 
 impl<Source, ConnectorProvider> ConnectableObservable<Source, ConnectorProvider>
@@ -46,19 +55,98 @@ where
 	ConnectionSubscription<Source, ConnectorProvider::Provided>: 'static + TeardownCollection,
 {
 	pub fn new(source: Source, options: ConnectableOptions<ConnectorProvider>) -> Self {
-		let connection_state = Arc::new(Mutex::new(ConnectionState::new(
-			ConnectionOptions::from_connectable_options(&options),
-		)));
-		let connection = Arc::new(Mutex::new(Connection::default()));
 		Self {
-			connector: Arc::new(Mutex::new(ConnectorState::new(
-				source,
-				connection.clone(),
-				connection_state.clone(),
-				options,
+			source: Arc::new(Mutex::new(source)),
+			connection: Arc::new(Mutex::new(Connection::default())),
+			connection_state: Arc::new(Mutex::new(ConnectionState::new(
+				ConnectionOptions::from_connectable_options(&options),
 			))),
-			connection,
-			connection_state,
+			reset_options: ResetOptions {
+				on_disconnect: options.reset_connector_on_disconnect,
+				on_complete: options.reset_connector_on_complete,
+				on_error: options.reset_connector_on_error,
+			},
+			connector: Arc::default(),
+			connector_provider: Arc::new(Mutex::new(options.connector_provider)),
+		}
+	}
+
+	/// When `disconnect_when_ref_count_zero` is set, and there are no
+	/// subscribers (anymore), disconnects.
+	pub fn disconnect_when_unused(&mut self) -> bool {
+		let is_unused = self.connection_state.lock_ignore_poison().is_unused();
+		is_unused && self.disconnect()
+	}
+
+	/// Returns a function that when called, if its enabled drops the connector
+	/// from behind the mutex, so that a new one has to be created.
+	fn create_reset_fn(&self, enabled: bool, generation: usize) -> Box<dyn FnOnce() + Send + Sync> {
+		let connector = self.connector.clone();
+		Box::new(move || {
+			if enabled {
+				connector.lock_ignore_poison().reset_generation(generation);
+			}
+		})
+	}
+
+	/// Subscribes to the source as long as there are pending connections.
+	/// Nothing else is locked while doing that, so that subscribers can do
+	/// anything upon what the source emits immediately. If they disconnect and
+	/// connect again, that connection too will be established here.
+	fn establish_pending_connections(&mut self) {
+		let mut connecting = ConnectingGuard(Some(self.connection.clone()));
+
+		loop {
+			let pending_connection = {
+				let mut connection = self.connection.lock_ignore_poison();
+				let pending_connection = connection.get_pending_connection();
+				if pending_connection.is_none() {
+					connection.stop_connecting();
+				}
+				pending_connection
+			};
+
+			let Some(pending_connection) = pending_connection else {
+				connecting.0.take();
+				return;
+			};
+
+			let (connector, generation) = self
+				.connector
+				.lock_ignore_poison()
+				.get_open_connector(&*self.connector_provider.lock_ignore_poison());
+
+			let connection_subscriber = ConnectionSubscriber::new(
+				connector,
+				self.create_reset_fn(self.reset_options.on_complete, generation),
+				self.create_reset_fn(self.reset_options.on_error, generation),
+				pending_connection.get_lifecycle().clone(),
+			);
+
+			let subscription = self
+				.source
+				.lock_ignore_poison()
+				.subscribe(connection_subscriber);
+
+			pending_connection.establish(subscription);
+		}
+	}
+}
+
+/// If subscribing to the source panics, it must still be possible to connect
+struct ConnectingGuard<Subscription>(Option<Arc<Mutex<Connection<Subscription>>>>)
+where
+	Subscription: SubscriptionWithTeardown;
+
+impl<Subscription> Drop for ConnectingGuard<Subscription>
+where
+	Subscription: SubscriptionWithTeardown,
+{
+	fn drop(&mut self) {
+		if let Some(connection) = self.0.take() {
+			let mut connection = connection.lock_ignore_poison();
+			connection.stop_connecting();
+			connection.take_connection();
 		}
 	}
 }
@@ -82,40 +170,37 @@ where
 	where
 		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError>,
 	{
-		let mut subscription = {
-			let mut connector = self.connector.lock_ignore_poison();
-			connector.get_connector().subscribe(observer.upgrade())
-		};
-
-		if !subscription.is_closed() {
-			self.connection_state
-				.lock_ignore_poison()
-				.increment_subscriber_count();
+		// Counted before subscribing, others may unsubscribe during that
+		self.connection_state
+			.lock_ignore_poison()
+			.increment_subscriber_count();
 
-			let connection_state_clone = self.connection_state.clone();
-			let connection_clone = self.connection.clone();
-			subscription.add_fn(move || {
-				let connection_to_disconnect = {
-					let mut connection_state = connection_state_clone.lock_ignore_poison();
+		let mut connector = self
+			.connector
+			.lock_ignore_poison()
+			.get_connector(&*self.connector_provider.lock_ignore_poison());
+		let mut subscription = connector.subscribe(observer.upgrade());
 
-					// If, and only if when `disconnect_when_ref_count_zero` is set,
-					// and the ref count dropped to zero this function returns true
-					let should_disconnect = connection_state.decrement_subscriber_count();
+		let connection_state_clone = self.connection_state.clone();
+		let connection_clone = self.connection.clone();
+		subscription.add_fn(move || {
+			// If, and only if when `disconnect_when_ref_count_zero` is set,
+			// and the ref count dropped to zero this function returns true
+			let should_disconnect = connection_state_clone
+				.lock_ignore_poison()
+				.decrement_subscriber_count();
 
-					if should_disconnect {
-						connection_clone.lock_ignore_poison().take_connection()
-					} else {
-						None
-					}
-				};
+			if should_disconnect {
+				let connection_to_disconnect =
+					connection_clone.lock_ignore_poison().take_connection();
 
 				if let Some(mut connection) = connection_to_disconnect
 					&& !connection.is_closed()
 				{
 					connection.unsubscribe();
-				};
-			});
-		}
+				}
+			}
+		});
 
 		subscription
 	}
@@ -131,12 +216,49 @@ where
 	type ConnectionSubscription = ConnectionSubscription<Source, ConnectorProvider::Provided>;
 
 	fn connect(&mut self) -> ConnectionHandle<Self::ConnectionSubscription> {
-		self.connector.lock_ignore_poison().connect()
+		let (handle, previous_connection, should_establish) = {
+			let mut connection = self.connection.lock_ignore_poison();
+			if let Some(active_connection) = connection.get_active_connection() {
+				return active_connection;
+			}
+
+			let (_, generation) = self
+				.connector
+				.lock_ignore_poison()
+				.get_open_connector(&*self.connector_provider.lock_ignore_poison());
+			let handle = ConnectionHandle::new_pending(ConnectionLifecycle::new(
+				self.create_reset_fn(self.reset_options.on_disconnect, generation),
+			));
+
+			(
+				handle.clone(),
+				connection.register_connection(handle),
+				connection.start_connecting(),
+			)
+		};
+
+		if let Some(mut previous_connection) = previous_connection {
+			previous_connection.unsubscribe();
+		}
+
+		if should_establish {
+			self.establish_pending_connections();
+		}
+
+		handle
 	}
 
 	#[inline]
 	fn disconnect(&mut self) -> bool {
-		self.connector.lock_ignore_poison().disconnect()
+		let connection = self.connection.lock_ignore_poison().take_connection();
+		if let Some(mut connection) = connection
+			&& !connection.is_closed()
+		{
+			connection.unsubscribe();
+			return true;
+		}
+
+		false
 	}
 
 	#[inline]
@@ -146,6 +268,7 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
+		self.disconnect();
 		self.connector.lock_ignore_poison().reset();
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/connection_handle.rs b/crates/rx_core_observable_connectable/src/connection_handle.rs
index 2a3c142..60c1dca 100644
--- a/crates/rx_core_observable_connectable/src/connection_handle.rs
+++ b/crates/rx_core_observable_connectable/src/connection_handle.rs
@@ -1,22 +1,32 @@
 use std::sync::{Arc, Mutex};
 
 use derive_where::derive_where;
-use rx_core_common::SubscriptionWithTeardown;
+use rx_core_common::{
+	LockWithPoisonBehavior, SubscriptionLike, SubscriptionWithTeardown, Teardown,
+	TeardownCollection,
+};
 use rx_core_macro_subscription_derive::RxSubscription;
 
+use crate::internal::ConnectionLifecycle;
+
 /// Subscription that represents an active connection for a
 /// [ConnectableObservable][crate::ConnectableObservable].
 #[derive_where(Clone)]
 #[derive(RxSubscription)]
-#[rx_delegate_subscription_like_to_destination]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl]
 pub struct ConnectionHandle<Subscription>
 where
 	Subscription: SubscriptionWithTeardown,
 {
-	#[destination]
-	handle: Arc<Mutex<Subscription>>,
+	lifecycle: ConnectionLifecycle,
+	handle: Arc<Mutex<HandleState<Subscription>>>,
+}
+
+enum HandleState<Subscription> {
+	/// The source is not yet, or is just being subscribed to
+	Pending(Vec<Teardown>),
+	Established(Subscription),
+	Unsubscribed,
 }
 
 impl<Subscription> ConnectionHandle<Subscription>
@@ -25,7 +35,115 @@ where
 {
 	pub fn new(subscription: Subscription) -> Self {
 		Self {
-			handle: Arc::new(Mutex::new(subscription)),
+			lifecycle: ConnectionLifecycle::default(),
+			handle: Arc::new(Mutex::new(HandleState::Established(subscription))),
+		}
+	}
+
+	pub(crate) fn new_pending(lifecycle: ConnectionLifecycle) -> Self {
+		Self {
+			lifecycle,
+			handle: Arc::new(Mutex::new(HandleState::Pending(Vec::new()))),
+		}
+	}
+
+	#[inline]
+	pub(crate) fn get_lifecycle(&self) -> &ConnectionLifecycle {
+		&self.lifecycle
+	}
+
+	#[inline]
+	pub(crate) fn is_pending(&self) -> bool {
+		matches!(*self.handle.lock_ignore_poison(), HandleState::Pending(_))
+	}
+
+	/// Once the source has been subscribed to
+	pub(crate) fn establish(&self, mut subscription: Subscription) {
+		loop {
+			let teardowns = {
+				let mut handle = self.handle.lock_ignore_poison();
+				match &mut *handle {
+					HandleState::Pending(teardowns) if !teardowns.is_empty() => {
+						std::mem::take(teardowns)
+					}
+					HandleState::Pending(_) if !self.lifecycle.is_closed() => {
+						*handle = HandleState::Established(subscription);
+						return;
+					}
+					_ => {
+						*handle = HandleState::Unsubscribed;
+						break;
+					}
+				}
+			};
+
+			for teardown in teardowns {
+				subscription.add_teardown(teardown);
+			}
+		}
+
+		// Was already over by the time it got established
+		self.lifecycle.set_abandoned(false);
+		subscription.unsubscribe();
+	}
+}
+
+impl<Subscription> SubscriptionLike for ConnectionHandle<Subscription>
+where
+	Subscription: SubscriptionWithTeardown,
+{
+	fn is_closed(&self) -> bool {
+		self.lifecycle.is_closed()
+			|| match &*self.handle.lock_ignore_poison() {
+				HandleState::Pending(_) => false,
+				HandleState::Established(subscription) => subscription.is_closed(),
+				HandleState::Unsubscribed => true,
+			}
+	}
+
+	fn unsubscribe(&mut self) {
+		self.lifecycle.disconnect();
+
+		let established = {
+			let mut handle = self.handle.lock_ignore_poison();
+			match &*handle {
+				// Whoever is subscribing to the source will unsubscribe it
+				HandleState::Pending(_) => {
+					self.lifecycle.set_abandoned(true);
+					None
+				}
+				_ => Some(std::mem::replace(&mut *handle, HandleState::Unsubscribed)),
+			}
+		};
+
+		if let Some(HandleState::Established(mut subscription)) = established {
+			subscription.unsubscribe();
+		}
+	}
+}
+
+impl<Subscription> TeardownCollection for ConnectionHandle<Subscription>
+where
+	Subscription: SubscriptionWithTeardown,
+{
+	fn add_teardown(&mut self, teardown: Teardown) {
+		let already_closed = {
+			let mut handle = self.handle.lock_ignore_poison();
+			match &mut *handle {
+				HandleState::Pending(teardowns) => {
+					teardowns.push(teardown);
+					None
+				}
+				HandleState::Established(subscription) if !subscription.is_closed() => {
+					subscription.add_teardown(teardown);
+					None
+				}
+				_ => Some(teardown),
+			}
+		};
+
+		if let Some(teardown) = already_closed {
+			teardown.execute();
 		}
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connection.rs b/crates/rx_core_observable_connectable/src/internal/connection.rs
index 18bfc65..f8993b5 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection.rs
@@ -9,23 +9,14 @@ where
 	Subscription: SubscriptionWithTeardown,
 {
 	connection: Option<ConnectionHandle<Subscription>>,
+	/// Whether pending connections are already being established by someone
+	connecting: bool,
 }
 
 impl<Subscription> Connection<Subscription>
 where
 	Subscription: SubscriptionWithTeardown,
 {
-	pub(crate) fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
-	}
-
 	pub(crate) fn is_connected(&self) -> bool {
 		if let Some(connection) = self.connection.as_ref() {
 			!connection.is_closed()
@@ -34,24 +25,37 @@ where
 		}
 	}
 
+	/// Returns the previous connection, that must be unsubscribed
 	pub(crate) fn register_connection(
 		&mut self,
-		connection: Subscription,
-	) -> ConnectionHandle<Subscription> {
-		self.disconnect();
-		let handle = ConnectionHandle::new(connection);
-		self.connection = Some(handle.clone());
-		handle
+		connection: ConnectionHandle<Subscription>,
+	) -> Option<ConnectionHandle<Subscription>> {
+		self.connection.replace(connection)
 	}
 
 	pub(crate) fn take_connection(&mut self) -> Option<ConnectionHandle<Subscription>> {
 		self.connection.take()
 	}
 
-	pub(crate) fn get_active_connection(&mut self) -> Option<ConnectionHandle<Subscription>> {
+	pub(crate) fn get_active_connection(&self) -> Option<ConnectionHandle<Subscription>> {
 		self.connection
 			.as_ref()
 			.filter(|connection| !connection.is_closed())
 			.cloned()
 	}
+
+	/// Returns `false` if pending connections are already being established
+	pub(crate) fn start_connecting(&mut self) -> bool {
+		!std::mem::replace(&mut self.connecting, true)
+	}
+
+	#[inline]
+	pub(crate) fn stop_connecting(&mut self) {
+		self.connecting = false;
+	}
+
+	pub(crate) fn get_pending_connection(&self) -> Option<ConnectionHandle<Subscription>> {
+		self.get_active_connection()
+			.filter(|connection| connection.is_pending())
+	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_lifecycle.rs b/crates/rx_core_observable_connectable/src/internal/connection_lifecycle.rs
new file mode 100644
index 0000000..8221134
--- /dev/null
+++ b/crates/rx_core_observable_connectable/src/internal/connection_lifecycle.rs
@@ -0,0 +1,63 @@
+use std::sync::{
+	Arc, Mutex,
+	atomic::{AtomicBool, Ordering},
+};
+
+use rx_core_common::LockWithPoisonBehavior;
+
+type OnDisconnect = Box<dyn FnOnce() + Send + Sync>;
+
+/// What's known about a connection by both its handles, and the subscriber
+/// between the source and the connector, even while the source is still being
+/// subscribed to.
+#[derive(Clone, Default)]
+pub(crate) struct ConnectionLifecycle {
+	closed: Arc<AtomicBool>,
+	/// Closed while the source is still being subscribed to
+	abandoned: Arc<AtomicBool>,
+	on_disconnect: Arc<Mutex<Option<OnDisconnect>>>,
+}
+
+impl ConnectionLifecycle {
+	pub(crate) fn new(on_disconnect: OnDisconnect) -> Self {
+		Self {
+			closed: Arc::default(),
+			abandoned: Arc::default(),
+			on_disconnect: Arc::new(Mutex::new(Some(on_disconnect))),
+		}
+	}
+
+	#[inline]
+	pub(crate) fn is_closed(&self) -> bool {
+		self.closed.load(Ordering::SeqCst)
+	}
+
+	/// While there's no subscription to unsubscribe yet, the source can only be
+	/// stopped by telling it that its subscriber is closed.
+	#[inline]
+	pub(crate) fn set_abandoned(&self, abandoned: bool) {
+		self.abandoned.store(abandoned, Ordering::SeqCst);
+	}
+
+	#[inline]
+	pub(crate) fn is_abandoned(&self) -> bool {
+		self.abandoned.load(Ordering::SeqCst)
+	}
+
+	/// The source completed or errored, it can't be disconnected anymore
+	pub(crate) fn finish(&self) {
+		self.closed.store(true, Ordering::SeqCst);
+		let on_disconnect = self.on_disconnect.lock_ignore_poison().take();
+		drop(on_disconnect);
+	}
+
+	/// Returns `true` if the connection was active before this call
+	pub(crate) fn disconnect(&self) -> bool {
+		let was_active = !self.closed.swap(true, Ordering::SeqCst);
+		let on_disconnect = self.on_disconnect.lock_ignore_poison().take();
+		if let Some(on_disconnect) = on_disconnect {
+			on_disconnect();
+		}
+		was_active
+	}
+}
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_state.rs b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
index 32bb6dd..c7b2687 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
@@ -8,8 +8,6 @@ pub(crate) struct ConnectionOptions {
 
 pub(crate) struct ConnectionState {
 	downstream_subscriber_count: usize,
-	has_errored: bool,
-	has_completed: bool,
 	connection_options: ConnectionOptions,
 }
 
@@ -32,21 +30,9 @@ impl ConnectionState {
 		Self {
 			connection_options,
 			downstream_subscriber_count: 0,
-			has_completed: false,
-			has_errored: false,
 		}
 	}
 
-	#[inline]
-	pub(crate) fn errored(&mut self) {
-		self.has_errored = true;
-	}
-
-	#[inline]
-	pub(crate) fn completed(&mut self) {
-		self.has_completed = true;
-	}
-
 	pub(crate) fn increment_subscriber_count(&mut self) {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_add(1);
 	}
@@ -55,14 +41,13 @@ impl ConnectionState {
 	/// ref count has just dropped to zero.
 	pub(crate) fn decrement_subscriber_count(&mut self) -> bool {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_sub(1);
-		self.connection_options.disconnect_when_ref_count_zero
-			&& self.downstream_subscriber_count == 0
-			&& !self.has_errored
-			&& !self.has_completed
+		self.is_unused()
 	}
 
-	pub(crate) fn reset(&mut self) {
-		self.has_completed = false;
-		self.has_errored = false;
+	/// Returns true when disconnect_when_ref_count_zero is enabled and there
+	/// are no subscribers.
+	pub(crate) fn is_unused(&self) -> bool {
+		self.connection_options.disconnect_when_ref_count_zero
+			&& self.downstream_subscriber_count == 0
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
index 8e02f5c..cec1428 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
@@ -3,6 +3,8 @@ use rx_core_common::{
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
+use crate::internal::ConnectionLifecycle;
+
 #[derive(RxSubscriber)]
 #[rx_in(Connector::In)]
 #[rx_in_error(Connector::InError)]
@@ -13,7 +15,7 @@ where
 	connector: Connector,
 	on_error: Option<Box<dyn FnOnce() + Send + Sync>>,
 	on_complete: Option<Box<dyn FnOnce() + Send + Sync>>,
-	on_unsubscribe: Option<Box<dyn FnOnce() + Send + Sync>>,
+	lifecycle: ConnectionLifecycle,
 	teardown: SubscriptionData,
 }
 
@@ -25,16 +27,23 @@ where
 		connector: Connector,
 		on_complete: Box<dyn FnOnce() + Send + Sync>,
 		on_error: Box<dyn FnOnce() + Send + Sync>,
-		on_unsubscribe: Box<dyn FnOnce() + Send + Sync>,
+		lifecycle: ConnectionLifecycle,
 	) -> Self {
 		Self {
 			connector,
 			on_complete: Some(on_complete),
 			on_error: Some(on_error),
-			on_unsubscribe: Some(on_unsubscribe),
+			lifecycle,
 			teardown: SubscriptionData::default(),
 		}
 	}
+
+	/// Once disconnected, nothing is relayed anymore, even if the source didn't
+	/// get to unsubscribe it yet
+	#[inline]
+	fn is_active(&self) -> bool {
+		!self.is_closed() && !self.lifecycle.is_closed()
+	}
 }
 
 impl<Connector> RxObserver for ConnectionSubscriber<Connector>
@@ -43,14 +52,15 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		if !self.is_closed() {
+		if self.is_active() {
 			self.connector.next(next);
 		}
 	}
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
+		if self.is_active() {
+			self.lifecycle.finish();
 			if let Some(on_error) = self.on_error.take() {
 				on_error()
 			}
@@ -62,7 +72,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if !self.is_closed() {
+		if self.is_active() {
+			self.lifecycle.finish();
 			if let Some(on_complete) = self.on_complete.take() {
 				on_complete()
 			}
@@ -89,17 +100,15 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.teardown.is_closed() || self.connector.is_closed()
+		self.teardown.is_closed() || self.connector.is_closed() || self.lifecycle.is_abandoned()
 	}
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.teardown.is_closed() {
 			self.on_complete.take(); // In case wasn't completed
 			self.on_error.take(); // In case didn't error
-			if let Some(on_unsubscribe) = self.on_unsubscribe.take() {
-				on_unsubscribe()
-			}
+			self.lifecycle.disconnect();
 			self.teardown.unsubscribe();
 			// Disconnected from the connector!
 			// A connection must not unsubscribe the connector!
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index b72b9cd..d6e04e6 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -1,142 +1,63 @@
-use std::sync::{Arc, Mutex};
+use derive_where::derive_where;
+use rx_core_common::{Provider, SubjectLike};
 
-use rx_core_common::{
-	LockWithPoisonBehavior, Observable, ObservableOutput, Provider, SubjectLike, TeardownCollection,
-};
-use rx_core_macro_observable_derive::RxObservable;
-
-use crate::{
-	internal::{Connection, ConnectionState, ConnectionSubscriber},
-	observable::{ConnectableOptions, ConnectionHandle, ConnectionSubscription},
-};
-
-#[derive(RxObservable)]
-#[rx_out(<ConnectorProvider::Provided as ObservableOutput>::Out)]
-#[rx_out_error(<ConnectorProvider::Provided as ObservableOutput>::OutError)]
-pub(crate) struct ConnectorState<Source, ConnectorProvider>
+/// Holds the connector subject, subscribers subscribe to this
+#[derive_where(Default)]
+pub(crate) struct ConnectorState<Connector>
 where
-	Source: Observable,
-	ConnectorProvider: 'static + Provider,
-	ConnectorProvider::Provided: SubjectLike<In = Source::Out, InError = Source::OutError> + Clone,
-	ConnectionSubscription<Source, ConnectorProvider::Provided>: 'static + TeardownCollection,
+	Connector: SubjectLike + Clone,
 {
-	/// Upon connection, the connector subject will subscribe to this source
-	/// observable
-	source: Source,
-
-	/// Upon subscription this connector subject is what will be used as the
-	/// source
-	connector: Arc<Mutex<Option<ConnectorProvider::Provided>>>,
-
-	connection: Arc<Mutex<Connection<ConnectionSubscription<Source, ConnectorProvider::Provided>>>>,
-
-	connection_state: Arc<Mutex<ConnectionState>>,
-
-	options: ConnectableOptions<ConnectorProvider>,
+	connector: Option<Connector>,
+	/// Identifies the current connector, a connection must not reset one that
+	/// isn't its own.
+	generation: usize,
 }
 
-impl<Source, ConnectorProvider> ConnectorState<Source, ConnectorProvider>
+impl<Connector> ConnectorState<Connector>
 where
-	Source: Observable,
-	ConnectorProvider: 'static + Provider,
-	ConnectorProvider::Provided: SubjectLike<In = Source::Out, InError = Source::OutError> + Clone,
-	ConnectionSubscription<Source, ConnectorProvider::Provided>: 'static + TeardownCollection,
+	Connector: SubjectLike + Clone,
 {
-	pub(crate) fn new(
-		source: Source,
-		connection: Arc<
-			Mutex<Connection<ConnectionSubscription<Source, ConnectorProvider::Provided>>>,
-		>,
-		connection_state: Arc<Mutex<ConnectionState>>,
-		options: ConnectableOptions<ConnectorProvider>,
-	) -> Self {
-		Self {
-			source,
-			connector: Arc::new(Mutex::new(None)),
-			connection,
-			connection_state,
-			options,
-		}
-	}
-
-	pub(crate) fn get_connector(&mut self) -> ConnectorProvider::Provided {
-		let mut connector = self.connector.lock_ignore_poison();
-		connector
-			.get_or_insert_with(|| self.options.connector_provider.provide())
-			.clone()
-	}
-
-	pub(crate) fn create_connection(
+	pub(crate) fn get_connector<ConnectorProvider>(
 		&mut self,
-	) -> ConnectionSubscription<Source, ConnectorProvider::Provided> {
-		let connector = self.get_connector().clone();
-
-		let reset_connector_on_disconnect = self.options.reset_connector_on_disconnect;
-		let connection_on_complete = self.connection_state.clone();
-		let connection_on_error = self.connection_state.clone();
-		let connector_on_complete = self.connector.clone();
-		let connector_on_error = self.connector.clone();
-		let connector_on_unsubscribe = self.connector.clone();
-		let reset_on_complete = self.options.reset_connector_on_complete;
-		let reset_on_error = self.options.reset_connector_on_error;
-
-		self.source.subscribe(ConnectionSubscriber::new(
-			connector.clone(),
-			Box::new(move || {
-				let mut connection_state = connection_on_complete.lock_ignore_poison();
-
-				if reset_on_complete {
-					connector_on_complete.lock_ignore_poison().take();
-					connection_state.reset();
-				}
-				connection_state.completed();
-			}),
-			Box::new(move || {
-				let mut connection_state = connection_on_error.lock_ignore_poison();
-				if reset_on_error {
-					connector_on_error.lock_ignore_poison().take();
-					connection_state.reset();
-				}
-				connection_state.errored();
-			}),
-			Box::new(move || {
-				if reset_connector_on_disconnect {
-					// Simply drop the connector from behind the mutex, so that
-					// new connections will be forced to create a new connector.
-					connector_on_unsubscribe.lock_ignore_poison().take();
-					// Attempting to unsubscribe the connector here will lead to a deadlock!
-				}
-			}),
-		))
-	}
-
-	pub(crate) fn register_connection(
-		&mut self,
-		connection: ConnectionSubscription<Source, ConnectorProvider::Provided>,
-	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
-		self.connection
-			.lock_clear_poison()
-			.register_connection(connection)
+		connector_provider: &ConnectorProvider,
+	) -> Connector
+	where
+		ConnectorProvider: Provider<Provided = Connector>,
+	{
+		self.connector
+			.get_or_insert_with(|| connector_provider.provide())
+			.clone()
 	}
 
-	pub(crate) fn connect(
+	/// Connecting to a closed connector would be pointless, it's recreated.
+	pub(crate) fn get_open_connector<ConnectorProvider>(
 		&mut self,
-	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
-		let active_connection = self.connection.lock_ignore_poison().get_active_connection();
+		connector_provider: &ConnectorProvider,
+	) -> (Connector, usize)
+	where
+		ConnectorProvider: Provider<Provided = Connector>,
+	{
+		if self
+			.connector
+			.as_ref()
+			.is_some_and(|connector| connector.is_closed())
+		{
+			self.reset();
+		}
 
-		active_connection.unwrap_or_else(move || {
-			let new_connection = self.create_connection();
-			self.register_connection(new_connection)
-		})
+		(self.get_connector(connector_provider), self.generation)
 	}
 
-	#[inline]
-	pub(crate) fn disconnect(&mut self) -> bool {
-		self.connection.lock_ignore_poison().disconnect()
+	/// Drops the connector, so that a new one will be created.
+	/// Attempting to unsubscribe the connector here will lead to a deadlock!
+	pub(crate) fn reset(&mut self) {
+		self.connector.take();
+		self.generation = self.generation.wrapping_add(1);
 	}
 
-	pub(crate) fn reset(&mut self) {
-		self.disconnect();
-		self.connector.lock_ignore_poison().take();
+	pub(crate) fn reset_generation(&mut self, generation: usize) {
+		if self.generation == generation {
+			self.reset();
+		}
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/mod.rs b/crates/rx_core_observable_connectable/src/internal/mod.rs
index 96e446e..ec11146 100644
--- a/crates/rx_core_observable_connectable/src/internal/mod.rs
+++ b/crates/rx_core_observable_connectable/src/internal/mod.rs
@@ -1,9 +1,11 @@
 mod connection;
+mod connection_lifecycle;
 mod connection_state;
 mod connection_subscriber;
 mod connector_state;
 
 pub(crate) use connection::*;
+pub(crate) use connection_lifecycle::*;
 pub(crate) use connection_state::*;
 pub(crate) use connection_subscriber::*;
 pub(crate) use connector_state::*;
-- 
2.43.0


From 41b73990009d47d95949d621486aa5e6d38019eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 37/61] fix: clones of a shared observable must agree on being
 connected, and connect only when there is someone to connect for

---
 .../src/share_observable.rs                   | 50 ++++++-------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 96730b6..81a80cf 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -14,21 +14,10 @@ where
 	Source: Observable,
 	Source::Out: Clone,
 	Source::OutError: Clone,
-		ConnectorProvider: 'static + Provider,
+	ConnectorProvider: 'static + Provider,
 	ConnectorProvider::Provided: SubjectLike<In = Source::Out, InError = Source::OutError> + Clone,
 {
-	connectable: ConnectableObservable<
-		Source,
-		ConnectorProvider,
-	>,
-	connection: Option<
-		ConnectionHandle<
-			<ConnectableObservable<
-				Source,
-			ConnectorProvider,
-			> as Connectable>::ConnectionSubscription,
-		>,
-	>,
+	connectable: ConnectableObservable<Source, ConnectorProvider>,
 }
 
 impl<Source, ConnectorProvider> ShareObservable<Source, ConnectorProvider>
@@ -42,15 +31,11 @@ where
 	pub fn new(source: Source, options: ConnectableOptions<ConnectorProvider>) -> Self {
 		Self {
 			connectable: ConnectableObservable::new(source, options),
-			connection: None,
 		}
 	}
 
 	pub fn is_connected(&self) -> bool {
-		self.connection
-			.as_ref()
-			.map(|connection| !connection.is_closed())
-			.unwrap_or(false)
+		self.connectable.is_connected()
 	}
 
 	pub fn connect(
@@ -58,26 +43,11 @@ where
 	) -> ConnectionHandle<
 		<ConnectableObservable<Source, ConnectorProvider> as Connectable>::ConnectionSubscription,
 	> {
-		if let Some(connection) = self.connection.as_ref()
-			&& !connection.is_closed()
-		{
-			return connection.clone();
-		}
-
-		let connection = self.connectable.connect();
-		self.connection = Some(connection.clone());
-		connection
+		self.connectable.connect()
 	}
 
 	pub fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
+		self.connectable.disconnect()
 	}
 }
 
@@ -104,7 +74,15 @@ where
 	{
 		let subscription = self.connectable.subscribe(destination);
 
-		self.connect();
+		// There's nobody to connect for if it's already over
+		if !subscription.is_closed() {
+			self.connect();
+
+			if subscription.is_closed() {
+				// Could've been closed by another thread before connecting
+				self.connectable.disconnect_when_unused();
+			}
+		}
 
 		subscription
 	}
-- 
2.43.0


From e00cc189b5cdadd25d75881ba2b3ea447f03e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:15 +0000
Subject: [PATCH 38/61] fix: a subscribe command whose subscription entity is
 gone must not panic the app

---
 crates/rx_bevy_common/src/observable/command_subscribe.rs | 6 ++++++
 crates/rx_bevy_common/src/scheduler/rx_plugin.rs          | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/rx_bevy_common/src/observable/command_subscribe.rs b/crates/rx_bevy_common/src/observable/command_subscribe.rs
index f60bc28..85731c2 100644
--- a/crates/rx_bevy_common/src/observable/command_subscribe.rs
+++ b/crates/rx_bevy_common/src/observable/command_subscribe.rs
@@ -86,6 +86,12 @@ where
 
 		let remaining_retries = self.retries_remaining;
 
+		if world.get_entity(self.event.subscription_entity).is_err() {
+			// Nothing could hold on to this subscription anymore, dropping the event
+			// unsubscribes its destination.
+			return Ok(());
+		}
+
 		if has_matching_subscribe_observer {
 			world.trigger(self.event);
 		} else if let (Ok(command_to_retry), Some(mut subscribes_to_retry)) =
diff --git a/crates/rx_bevy_common/src/scheduler/rx_plugin.rs b/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
index e28b69b..95f7f68 100644
--- a/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
+++ b/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
@@ -19,7 +19,10 @@ pub struct RxPlugin;
 
 impl Plugin for RxPlugin {
 	fn build(&self, app: &mut App) {
-		app.add_systems(Last, clean_unfinished_subscriptions);
+		app.add_systems(
+			Last,
+			(execute_pending_retries, clean_unfinished_subscriptions).chain(),
+		);
 
 		// Used to despawn unsubscribed entities
 		app.add_plugins(RxSchedulerPlugin::<Last, Virtual>::default());
-- 
2.43.0


From e802bd6f77921107a193295ab5939c09a1d1e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:15 +0000
Subject: [PATCH 39/61] fix: replacing an observable component must not leave a
 second set of satellites

---
 .../rx_bevy_common/src/observable/observable_component.rs | 8 ++++++++
 crates/rx_bevy_common/src/subject/subject_component.rs    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/rx_bevy_common/src/observable/observable_component.rs b/crates/rx_bevy_common/src/observable/observable_component.rs
index 3ef611c..0bcc250 100644
--- a/crates/rx_bevy_common/src/observable/observable_component.rs
+++ b/crates/rx_bevy_common/src/observable/observable_component.rs
@@ -59,6 +59,14 @@ fn observable_on_insert<O>(mut deferred_world: DeferredWorld, hook_context: Hook
 where
 	O: 'static + Observable + Send + Sync,
 {
+	// When the component is replaced its satellite is already there
+	if deferred_world
+		.get::<SubscribeObserverRef<O>>(hook_context.entity)
+		.is_some()
+	{
+		return;
+	}
+
 	deferred_world
 		.commands()
 		.spawn(SubscribeEventObserverSatelliteBundle::<O>::new::<
diff --git a/crates/rx_bevy_common/src/subject/subject_component.rs b/crates/rx_bevy_common/src/subject/subject_component.rs
index ab779e6..c1c25eb 100644
--- a/crates/rx_bevy_common/src/subject/subject_component.rs
+++ b/crates/rx_bevy_common/src/subject/subject_component.rs
@@ -116,6 +116,14 @@ where
 	Subject::In: Clone,
 	Subject::InError: Clone,
 {
+	// When the component is replaced its satellites are already there
+	if deferred_world
+		.get::<SubscribeObserverRef<Subject>>(hook_context.entity)
+		.is_some()
+	{
+		return;
+	}
+
 	let mut commands = deferred_world.commands();
 	commands.spawn(SubscribeEventObserverSatelliteBundle::<Subject>::new::<
 		SubjectComponent<Subject>,
-- 
2.43.0


From 6c5371909867ab745e949d1b1e33e87bcd5ec891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:56 +0000
Subject: [PATCH 40/61] fix: a subscription of messages closed by its own
 observer must stop emitting

---
 .../src/message_subscription.rs                          | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_bevy_observable_message/src/message_subscription.rs b/crates/rx_bevy_observable_message/src/message_subscription.rs
index 6ad04a8..af42505 100644
--- a/crates/rx_bevy_observable_message/src/message_subscription.rs
+++ b/crates/rx_bevy_observable_message/src/message_subscription.rs
@@ -28,22 +28,21 @@ where
 			let cancellation_id = scheduler_lock.generate_cancellation_id();
 
 			let mut message_cursor = MessageCursor::<Destination::In>::default();
-			let shared_destination_clone = shared_destination.clone();
+			let mut shared_destination_clone = shared_destination.clone();
 			scheduler_lock.schedule_continuous_work(
 				move |_, context| {
 					let events = context
 						.deferred_world
 						.resource::<Messages<Destination::In>>();
 
-					let mut destination = shared_destination_clone.lock();
-					if destination.is_closed() {
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
 					for event in message_cursor.read(events).cloned() {
-						destination.next(event);
+						shared_destination_clone.next(event);
 
-						if destination.is_closed() {
+						if shared_destination_clone.is_closed() {
 							return WorkResult::Done;
 						}
 					}
-- 
2.43.0


From e55a430e1d88935d56ffc1ebb632f9c85614ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:03 +0000
Subject: [PATCH 41/61] fix: observing events of an entity despawned in the
 meantime must complete instead of panicking

---
 .../src/event_subscription.rs                 | 46 ++++++++++++-------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/crates/rx_bevy_observable_event/src/event_subscription.rs b/crates/rx_bevy_observable_event/src/event_subscription.rs
index d8c3389..0da9b6a 100644
--- a/crates/rx_bevy_observable_event/src/event_subscription.rs
+++ b/crates/rx_bevy_observable_event/src/event_subscription.rs
@@ -1,4 +1,4 @@
-use bevy_ecs::{entity::Entity, event::EntityEvent, name::Name, observer::Observer};
+use bevy_ecs::{entity::Entity, event::EntityEvent, name::Name, observer::Observer, world::World};
 use disqualified::ShortName;
 use rx_bevy_common::{
 	RxBevyScheduler, RxBevySchedulerDespawnEntityExtension, SubscriptionSatellite,
@@ -47,25 +47,39 @@ where
 			scheduler_lock.schedule_immediate_work(
 				move |_, context| {
 					let mut commands = context.deferred_world.commands();
-					let observer_satellite_entity = commands.spawn((
-						Name::new(format!("Event Observer of {}", ShortName::of::<Self>())),
-						Observer::new(create_event_forwarder_observer_for_destination(
-							shared_destination_clone,
-						))
-						.with_entity(observed_event_source_entity)
-						.with_error_handler(bevy_ecs::error::error),
-						SubscriptionSatellite::new_with_teardown(
-							observed_event_source_entity,
-							Teardown::new(move || {
-								shared_destination_despawn_clone.complete();
-							}),
-						),
-					));
+					let observer_satellite_entity = commands.spawn_empty().id();
+
+					commands.queue(move |world: &mut World| {
+						if world.get_entity(observed_event_source_entity).is_err() {
+							// It was despawned before it could have been observed
+							shared_destination_despawn_clone.complete();
+							return;
+						}
+
+						if let Ok(mut observer_satellite) =
+							world.get_entity_mut(observer_satellite_entity)
+						{
+							observer_satellite.insert((
+								Name::new(format!("Event Observer of {}", ShortName::of::<Self>())),
+								Observer::new(create_event_forwarder_observer_for_destination(
+									shared_destination_clone,
+								))
+								.with_entity(observed_event_source_entity)
+								.with_error_handler(bevy_ecs::error::error),
+								SubscriptionSatellite::new_with_teardown(
+									observed_event_source_entity,
+									Teardown::new(move || {
+										shared_destination_despawn_clone.complete();
+									}),
+								),
+							));
+						}
+					});
 
 					scheduler_schedule_clone
 						.lock()
 						.schedule_invoked_despawn_entity(
-							observer_satellite_entity.id(),
+							observer_satellite_entity,
 							despawn_event_observer_invoke_id,
 						);
 				},
-- 
2.43.0


From b2d2ce1fc9cb39d1a0367ad99a9d522d98e897be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:03 +0000
Subject: [PATCH 42/61] fix: a resource observable must not miss changes made
 within its own executor's run

---
 .../src/resource_subscription.rs                    | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/rx_bevy_observable_resource/src/resource_subscription.rs b/crates/rx_bevy_observable_resource/src/resource_subscription.rs
index dea9f7d..da5f585 100644
--- a/crates/rx_bevy_observable_resource/src/resource_subscription.rs
+++ b/crates/rx_bevy_observable_resource/src/resource_subscription.rs
@@ -44,10 +44,21 @@ where
 			let cancellation_id = scheduler_lock.generate_cancellation_id();
 
 			let mut resource_existed_in_the_previous_tick = false;
+			let mut previous_run = None;
 			let mut shared_destination_clone = shared_destination.clone();
 			scheduler_lock.schedule_continuous_work(
 				move |_tick, context| {
-					let is_changed = context.deferred_world.is_resource_changed::<R>();
+					// The executor's own system can't tell changes made while it
+					// runs, by other works and commands, apart from older ones.
+					let this_run = context
+						.deferred_world
+						.as_unsafe_world_cell_readonly()
+						.increment_change_tick();
+					let last_run = previous_run.replace(this_run).unwrap_or(this_run);
+					let is_changed = context
+						.deferred_world
+						.get_resource_change_ticks::<R>()
+						.is_some_and(|ticks| ticks.is_changed(last_run, this_run));
 					let resource_option = context.deferred_world.get_resource::<R>();
 
 					let is_added = {
-- 
2.43.0


From 713f480fcf5702311e1834635dc66b25353d4da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:09 +0000
Subject: [PATCH 43/61] fix: is_empty must only answer once

---
 .../src/is_empty_subscriber.rs                 | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
index 337275f..3a48624 100644
--- a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
+++ b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
@@ -15,6 +15,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// The destination can stay open after it was told the answer
+	answered: bool,
 	_phantom_data: PhantomInvariant<In>,
 }
 
@@ -26,6 +28,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			answered: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -38,6 +41,11 @@ where
 {
 	#[inline]
 	fn next(&mut self, _next: Self::In) {
+		if self.answered {
+			return;
+		}
+
+		self.answered = true;
 		self.destination.next(false);
 		if !self.destination.is_closed() {
 			self.destination.complete();
@@ -46,11 +54,19 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
+		if !self.answered {
+			self.answered = true;
+			self.destination.error(error);
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
+		if self.answered {
+			return;
+		}
+
+		self.answered = true;
 		self.destination.next(true);
 		if !self.destination.is_closed() {
 			self.destination.complete();
-- 
2.43.0


From 922e4e3b7201c550adec02c42e448e8db0bbe830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:09 +0000
Subject: [PATCH 44/61] fix: combined sources must only end their destination
 once

---
 .../src/combine_changes_subscriber.rs            | 16 +++++++++++++---
 .../src/combine_latest_subscriber.rs             | 15 +++++++++++++--
 .../src/join_subscriber.rs                       | 14 ++++++++++++--
 .../rx_core_observable_zip/src/zip_subscriber.rs | 15 +++++++++++++--
 4 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
index 3f69e18..721d3bb 100644
--- a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
+++ b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
@@ -34,6 +34,9 @@ where
 {
 	o1_state: NotificationState<O1::Out, O1::OutError>,
 	o2_state: NotificationState<O2::Out, O2::OutError>,
+	/// The destination was already told to complete, error or unsubscribe, it can
+	/// stay open even after that
+	is_finished: bool,
 	#[destination]
 	destination: Destination,
 }
@@ -52,6 +55,7 @@ where
 		CombineChangesSubscriber {
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
+			is_finished: false,
 			destination,
 		}
 	}
@@ -64,9 +68,11 @@ where
 	}
 
 	fn try_complete(&mut self) {
-		if !self.destination.is_closed()
+		if !self.is_finished
+			&& !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
+			self.is_finished = true;
 			self.destination.complete();
 		}
 	}
@@ -74,6 +80,7 @@ where
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed() && (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
+			self.is_finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -104,14 +111,17 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
-			self.destination.error(error);
+			if !self.is_finished {
+				self.is_finished = true;
+				self.destination.error(error);
+			}
 			return;
 		}
 
 		self.try_complete();
 		self.try_unsubscribe();
 
-		if !self.is_closed() && (o1_just_nexted || o2_just_nexted) {
+		if !self.is_finished && !self.is_closed() && (o1_just_nexted || o2_just_nexted) {
 			let o1_change = self
 				.o1_state
 				.get_value()
diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
index 159924b..cdbe34a 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
@@ -32,6 +32,9 @@ where
 {
 	o1_state: NotificationState<O1::Out, O1::OutError>,
 	o2_state: NotificationState<O2::Out, O2::OutError>,
+	/// The destination was already told to complete, error or unsubscribe, it can
+	/// stay open even after that
+	is_finished: bool,
 	#[destination]
 	destination: Destination,
 }
@@ -50,6 +53,7 @@ where
 		CombineLatestSubscriber {
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
+			is_finished: false,
 			destination,
 		}
 	}
@@ -69,11 +73,13 @@ where
 	}
 
 	fn try_complete(&mut self) {
-		if !self.destination.is_closed()
+		if !self.is_finished
+			&& !self.destination.is_closed()
 			&& ((self.o1_state.is_completed() && self.o2_state.is_completed())
 				|| (self.o1_state.is_primed() && self.o2_state.is_completed_but_not_primed())
 				|| (self.o1_state.is_completed_but_not_primed() && self.o2_state.is_primed()))
 		{
+			self.is_finished = true;
 			self.destination.complete();
 		}
 	}
@@ -84,6 +90,7 @@ where
 				|| (self.o1_state.is_waiting() && self.o2_state.is_closed_but_not_primed())
 				|| (self.o1_state.is_closed_but_not_primed() && self.o2_state.is_waiting()))
 		{
+			self.is_finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -114,7 +121,10 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
-			self.destination.error(error);
+			if !self.is_finished {
+				self.is_finished = true;
+				self.destination.error(error);
+			}
 			return;
 		}
 
@@ -122,6 +132,7 @@ where
 		self.try_unsubscribe();
 
 		if either_was_next
+			&& !self.is_finished
 			&& !self.is_closed()
 			&& let Some(next) = self.get_next()
 		{
diff --git a/crates/rx_core_observable_join/src/join_subscriber.rs b/crates/rx_core_observable_join/src/join_subscriber.rs
index 1db2db0..c39ca69 100644
--- a/crates/rx_core_observable_join/src/join_subscriber.rs
+++ b/crates/rx_core_observable_join/src/join_subscriber.rs
@@ -34,6 +34,9 @@ where
 {
 	o1_state: NotificationState<O1::Out, O1::OutError>,
 	o2_state: NotificationState<O2::Out, O2::OutError>,
+	/// The destination was already told to complete, error or unsubscribe, it can
+	/// stay open even after that
+	is_finished: bool,
 	#[destination]
 	destination: Destination,
 }
@@ -52,6 +55,7 @@ where
 		JoinSubscriber {
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
+			is_finished: false,
 			destination,
 		}
 	}
@@ -71,9 +75,11 @@ where
 	}
 
 	fn try_complete(&mut self) {
-		if !self.destination.is_closed()
+		if !self.is_finished
+			&& !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
+			self.is_finished = true;
 			if let Some(next) = self.get_next() {
 				self.destination.next(next);
 			}
@@ -85,6 +91,7 @@ where
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed() && (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
+			self.is_finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -121,7 +128,10 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
-			self.destination.error(error);
+			if !self.is_finished {
+				self.is_finished = true;
+				self.destination.error(error);
+			}
 			return;
 		}
 
diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index 0288efb..63397cf 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -36,6 +36,9 @@ where
 	destination: Destination,
 	o1_queue: NotificationQueue<O1::Out, O1::OutError>,
 	o2_queue: NotificationQueue<O2::Out, O2::OutError>,
+	/// The destination was already told to complete, error or unsubscribe, it can
+	/// stay open even after that
+	is_finished: bool,
 }
 
 impl<Destination, O1, O2> ZipSubscriber<Destination, O1, O2>
@@ -52,6 +55,7 @@ where
 		ZipSubscriber {
 			o1_queue: NotificationQueue::new(options.clone()),
 			o2_queue: NotificationQueue::new(options),
+			is_finished: false,
 			destination,
 		}
 	}
@@ -77,9 +81,11 @@ where
 	fn try_complete(&mut self) {
 		// The state of a queue reflects its front, when one of them is over, there
 		// can't be any more pairs, even if there's something left in the other
-		if !self.destination.is_closed()
+		if !self.is_finished
+			&& !self.destination.is_closed()
 			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
+			self.is_finished = true;
 			self.destination.complete();
 		}
 	}
@@ -87,6 +93,7 @@ where
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed() && (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
+			self.is_finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -117,11 +124,15 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
-			self.destination.error(error);
+			if !self.is_finished {
+				self.is_finished = true;
+				self.destination.error(error);
+			}
 			return;
 		}
 
 		if either_was_next
+			&& !self.is_finished
 			&& !self.is_closed()
 			&& let Some(next) = self.get_next()
 		{
-- 
2.43.0


From 01a08236866b1d118af8d1f045c514b77d2b0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:09 +0000
Subject: [PATCH 45/61] fix: take must not end its destination again once it
 has taken everything

---
 crates/rx_core_operator_take/src/take_subscriber.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index 1acca04..13ff1cd 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -54,13 +54,18 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
+		// It might have completed already while downstream stayed open
+		if !*self.closed {
+			self.destination.error(error);
+		}
 		self.closed.close();
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
+		if !*self.closed {
+			self.destination.complete();
+		}
 		self.closed.close();
 	}
 }
-- 
2.43.0


From b39297c822219878633315a06906dc5ce6019b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:09 +0000
Subject: [PATCH 46/61] fix: dematerialize must ignore notifications after a
 terminal one

---
 .../src/dematerialize_subscriber.rs               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
index 37b17de..4cb16b5 100644
--- a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
+++ b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
@@ -12,6 +12,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// Completed or errored already, the destination can stay open after that
+	is_finished: bool,
 }
 
 impl<Destination> DematerializeSubscriber<Destination>
@@ -19,7 +21,10 @@ where
 	Destination: Subscriber,
 {
 	pub fn new(destination: Destination) -> Self {
-		Self { destination }
+		Self {
+			destination,
+			is_finished: false,
+		}
 	}
 }
 
@@ -31,12 +36,13 @@ where
 	fn next(&mut self, notification: Self::In) {
 		match notification {
 			ObserverNotification::Next(next) => {
-				if !self.is_closed() {
+				if !self.is_finished && !self.is_closed() {
 					self.destination.next(next)
 				}
 			}
 			ObserverNotification::Error(error) => {
-				if !self.is_closed() {
+				if !self.is_finished && !self.is_closed() {
+					self.is_finished = true;
 					self.destination.error(error);
 				}
 			}
@@ -50,7 +56,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if !self.is_closed() {
+		if !self.is_finished && !self.is_closed() {
+			self.is_finished = true;
 			self.destination.complete();
 		}
 	}
-- 
2.43.0


From 69f9ce8ea4b7009e7873eb6d262bc01ed3c9eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 47/61] fix: first, find and find_index must not error after
 their result

---
 crates/rx_core_operator_find/src/find_subscriber.rs        | 5 ++++-
 .../src/find_index_subscriber.rs                           | 7 +++++--
 crates/rx_core_operator_first/src/first_subscriber.rs      | 5 ++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_find/src/find_subscriber.rs b/crates/rx_core_operator_find/src/find_subscriber.rs
index 194b8bf..f3c05d0 100644
--- a/crates/rx_core_operator_find/src/find_subscriber.rs
+++ b/crates/rx_core_operator_find/src/find_subscriber.rs
@@ -59,7 +59,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FindOperatorError::Upstream(error));
+		// Downstream can stay open after the result, nothing else should follow it
+		if !self.match_observed {
+			self.destination.error(FindOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
index 4a2fe6b..eabe22b 100644
--- a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
+++ b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
@@ -69,8 +69,11 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination
-			.error(FindIndexOperatorError::Upstream(error));
+		// Downstream can stay open after the result, nothing else should follow it
+		if !self.match_observed {
+			self.destination
+				.error(FindIndexOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_first/src/first_subscriber.rs b/crates/rx_core_operator_first/src/first_subscriber.rs
index ecb7717..dec407c 100644
--- a/crates/rx_core_operator_first/src/first_subscriber.rs
+++ b/crates/rx_core_operator_first/src/first_subscriber.rs
@@ -61,7 +61,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FirstOperatorError::Upstream(error));
+		// Downstream can stay open after the result, nothing else should follow it
+		if !self.first_observed {
+			self.destination.error(FirstOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
-- 
2.43.0


From bf9ad26d64b07779b7b944f9c425e03eccd08535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 48/61] fix: works dropped by the ticking executor must be able
 to use the scheduler

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 74278b1..f4ae0ef 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -154,7 +154,12 @@ where
 		let had_actions = scheduler.has_actions();
 		scheduler.update_tick(tick);
 
-		for action in scheduler.drain_actions() {
+		// Works can be dropped here by cancelling them, and by that resources that
+		// would use the scheduler when torn down, so it can't be kept locked
+		let actions = scheduler.drain_actions().collect::<Vec<_>>();
+		drop(scheduler);
+
+		for action in actions {
 			match action {
 				ScheduledWorkAction::<Tick, C>::Activate((cancellation_id, work)) => {
 					let work_id = self.work_id_generator.get_next();
-- 
2.43.0


From 43d1e87317514caa736f442476cc8e0ff32581b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 49/61] fix: lift_result must not send anything after an error

---
 .../src/lift_result_subscriber.rs                    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs b/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
index d5ce651..1537eed 100644
--- a/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
+++ b/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
@@ -17,6 +17,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// Downstream can stay open after an error, nothing else should follow it
+	has_errored: bool,
 	_phantom_data: PhantomInvariant<(ResultIn, ResultInError, InError)>,
 }
 
@@ -31,6 +33,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			has_errored: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -46,9 +49,14 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		if self.has_errored {
+			return;
+		}
+
 		match next {
 			Ok(next) => self.destination.next(next),
 			Err(error) => {
+				self.has_errored = true;
 				self.destination.error(error);
 			}
 		}
@@ -60,6 +68,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
+		if !self.has_errored {
+			self.destination.complete();
+		}
 	}
 }
-- 
2.43.0


From 339233708544fba3baf099d9956218f280c0ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 50/61] fix: unsubscribing a finished timer or interval must
 still reach downstream

---
 .../rx_core_observable_interval/src/interval_subscription.rs | 5 ++---
 crates/rx_core_observable_timer/src/timer_subscription.rs    | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_observable_interval/src/interval_subscription.rs b/crates/rx_core_observable_interval/src/interval_subscription.rs
index ead7888..05011a2 100644
--- a/crates/rx_core_observable_interval/src/interval_subscription.rs
+++ b/crates/rx_core_observable_interval/src/interval_subscription.rs
@@ -90,8 +90,7 @@ where
 
 	fn unsubscribe(&mut self) {
 		self.scheduler.lock().cancel(self.cancellation_id);
-		if !self.destination.is_closed() {
-			self.destination.unsubscribe();
-		}
+		// What is subscribed downstream can be open even after completion
+		self.destination.unsubscribe();
 	}
 }
diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index 9c5f7df..56f20fe 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -75,8 +75,7 @@ where
 			self.scheduler.lock().cancel(cancellation_id);
 		}
 
-		if !self.destination.is_closed() {
-			self.destination.unsubscribe();
-		}
+		// What is subscribed downstream can be open even after completion
+		self.destination.unsubscribe();
 	}
 }
-- 
2.43.0


From bb735f1ffae7c221b81ec1f62bb03fa5632ae8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 51/61] fix: unsubscribing from a subject must let go of closed
 subscribers too

---
 .../src/multicast_subscription.rs                | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 216ca45..1c96f99 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -53,17 +53,6 @@ where
 			subscriber: None,
 		}
 	}
-
-	fn try_check_is_closed(&self) -> bool {
-		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
-		} else {
-			true
-		}
-	}
 }
 
 impl<In, InError> SubscriptionLike for MulticastSubscription<In, InError>
@@ -88,8 +77,9 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.try_check_is_closed()
-			&& let Some(id) = self.id
+		// Even a closed subscriber has to be let go of, what is subscribed behind
+		// it can still be open
+		if let Some(id) = self.id
 			&& let Err(_unsubscribe_error) = self.subscribers.try_unsubscribe_by_id(id)
 		{
 			self.state
-- 
2.43.0


From 60e5e944e17dd3ede421ed640af2b3b1b60087a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 52/61] fix: merging must be unsubscribed even when downstream
 closed before

---
 .../src/concurrent_subscriber.rs                          | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index c46b6e9..4481169 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -223,7 +223,7 @@ where
 	Destination: 'static + Subscriber,
 {
 	fn next(&mut self, next: Self::In) {
-		if !self.is_closed() {
+		if !self.is_closed() && !self.shared_destination.is_closed() {
 			let mut state = self.state.lock_ignore_poison();
 
 			if state.non_completed_subscriptions < self.concurrency_limit.into() {
@@ -246,7 +246,7 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
+		if !self.is_closed() && !self.shared_destination.is_closed() {
 			self.state.lock_ignore_poison().upstream_error();
 
 			self.shared_destination.error(error);
@@ -256,6 +256,7 @@ where
 
 	fn complete(&mut self) {
 		if !self.is_closed()
+			&& !self.shared_destination.is_closed()
 			&& self
 				.state
 				.lock_ignore_poison()
@@ -275,11 +276,12 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.shared_destination.is_closed() || self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
 		if !self.is_closed() {
+			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 		}
 	}
-- 
2.43.0


From 9f887c34ae4ec00a95a225864b91b57f9a7be990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 53/61] fix: switch_map and exhaust_map must release inner
 subscriptions when closed from downstream

---
 .../src/exhaust_subscriber.rs                 | 23 ++++++++++++++-----
 .../src/switch_subscriber.rs                  | 20 +++++++++++-----
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 80f904f..5e91549 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -51,9 +51,13 @@ where
 			}
 		});
 
+		// If closed from downstream, nothing else would release what is held
+		let mut shared_destination = SharedSubscriber::new(destination);
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
 			outer_teardown,
-			shared_destination: SharedSubscriber::new(destination),
+			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
 			inner_subscription,
 			_phantom_data: PhantomData,
@@ -70,7 +74,10 @@ where
 	fn next(&mut self, mut next: Self::In) {
 		let mut state_lock = self.state.lock_ignore_poison();
 
-		if !self.is_closed() && state_lock.non_unsubscribed_subscriptions == 0 {
+		if !self.is_closed()
+			&& !self.shared_destination.is_closed()
+			&& state_lock.non_unsubscribed_subscriptions == 0
+		{
 			state_lock.non_completed_subscriptions += 1;
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
@@ -93,8 +100,11 @@ where
 				move |_| {
 					let (can_unsubscribe, can_complete) = {
 						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						// What observed an error can be subscribed to something else by now
+						let is_errored = state.upstream_subscriber_state.is_errored()
+							|| state.downstream_subscriber_state.is_errored();
 						(
-							state.can_downstream_unsubscribe(),
+							state.can_downstream_unsubscribe() && !is_errored,
 							state.last_unsubscribed_can_complete_downstream(),
 						)
 					};
@@ -130,18 +140,19 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
+		if !self.is_closed() && !self.shared_destination.is_closed() {
 			self.shared_destination.error(error);
 
 			// Only once signalled, otherwise inner subscribers on other threads
 			// could unsubscribe the destination before it would be
 			self.state.lock_ignore_poison().upstream_error();
-			self.unsubscribe();
+			self.outer_teardown.unsubscribe();
 		}
 	}
 
 	fn complete(&mut self) {
 		if !self.is_closed()
+			&& !self.shared_destination.is_closed()
 			&& self
 				.state
 				.lock_ignore_poison()
@@ -162,7 +173,7 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
+		self.outer_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index 64caa9d..2d2db7a 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -52,9 +52,13 @@ where
 			}
 		});
 
+		// If closed from downstream, nothing else would release what is held
+		let mut shared_destination = SharedSubscriber::new(destination);
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
 			outer_teardown,
-			shared_destination: SharedSubscriber::new(destination),
+			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
 			inner_subscription,
 			_phantom_data: PhantomData,
@@ -69,7 +73,7 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	fn next(&mut self, mut next: Self::In) {
-		if !self.is_closed() {
+		if !self.is_closed() && !self.shared_destination.is_closed() {
 			let mut state_lock = self.state.lock_ignore_poison();
 			state_lock.non_completed_subscriptions += 1;
 			state_lock.non_unsubscribed_subscriptions += 1;
@@ -99,8 +103,11 @@ where
 				move |_| {
 					let (can_unsubscribe, can_complete) = {
 						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						// What observed an error can be subscribed to something else by now
+						let is_errored = state.upstream_subscriber_state.is_errored()
+							|| state.downstream_subscriber_state.is_errored();
 						(
-							state.can_downstream_unsubscribe(),
+							state.can_downstream_unsubscribe() && !is_errored,
 							state.state.is_last_completed()
 								&& state.upstream_subscriber_state.is_completed()
 								&& !state.downstream_subscriber_state.is_errored(),
@@ -140,18 +147,19 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
+		if !self.is_closed() && !self.shared_destination.is_closed() {
 			self.shared_destination.error(error);
 
 			// Only once signalled, otherwise inner subscribers on other threads
 			// could unsubscribe the destination before it would be
 			self.state.lock_ignore_poison().upstream_error();
-			self.unsubscribe();
+			self.outer_teardown.unsubscribe();
 		}
 	}
 
 	fn complete(&mut self) {
 		if !self.is_closed()
+			&& !self.shared_destination.is_closed()
 			&& self
 				.state
 				.lock_ignore_poison()
@@ -188,7 +196,7 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
+		self.outer_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From 2deca966d84e40f17b6d270c116b6fd93ea82445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 54/61] fix: a source disconnected while it is being connected
 must be released

---
 .../src/internal/connection_subscriber.rs                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
index cec1428..6d3f5e8 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
@@ -54,6 +54,11 @@ where
 	fn next(&mut self, next: Self::In) {
 		if self.is_active() {
 			self.connector.next(next);
+
+			// There is no subscription yet to release what was acquired for it
+			if self.lifecycle.is_abandoned() {
+				self.unsubscribe();
+			}
 		}
 	}
 
-- 
2.43.0


From 665d00adadb00221b63fe4bb5d9f15485ab01038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 55/61] fix: delay must not send what was due together with an
 error after it

---
 crates/rx_core_operator_delay/src/delay_subscriber.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/rx_core_operator_delay/src/delay_subscriber.rs b/crates/rx_core_operator_delay/src/delay_subscriber.rs
index 26bc2b3..6745cdd 100644
--- a/crates/rx_core_operator_delay/src/delay_subscriber.rs
+++ b/crates/rx_core_operator_delay/src/delay_subscriber.rs
@@ -29,6 +29,7 @@ where
 	cancellation_id: WorkCancellationId,
 	upstream_completed: Arc<AtomicBool>,
 	upstream_unsubscribed: Arc<AtomicBool>,
+	upstream_errored: Arc<AtomicBool>,
 	scheduled_work_counter: Arc<AtomicUsize>,
 }
 
@@ -54,6 +55,7 @@ where
 			cancellation_id,
 			upstream_completed: Arc::new(AtomicBool::new(false)),
 			upstream_unsubscribed: Arc::new(AtomicBool::new(false)),
+			upstream_errored: Arc::new(AtomicBool::new(false)),
 			scheduled_work_counter: Arc::new(AtomicUsize::new(0)),
 		}
 	}
@@ -72,8 +74,14 @@ where
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
 		let upstream_completed = self.upstream_completed.clone();
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
+		let upstream_errored = self.upstream_errored.clone();
 		self.scheduler.lock().schedule_delayed_work(
 			move |_, _| {
+				// Work already due when it's cancelled still runs
+				if upstream_errored.load(Ordering::Relaxed) {
+					return;
+				}
+
 				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
@@ -106,6 +114,7 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
+		self.upstream_errored.store(true, Ordering::Relaxed);
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 		self.scheduled_work_counter.store(0, Ordering::Relaxed);
 		self.scheduler.lock().cancel(self.cancellation_id);
-- 
2.43.0


From 441763ecb140a81c3801cd9349530db66b62b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:08 +0000
Subject: [PATCH 56/61] fix: delay must finish once when its source finishes on
 another thread

---
 .../src/delay_subscriber.rs                   | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/crates/rx_core_operator_delay/src/delay_subscriber.rs b/crates/rx_core_operator_delay/src/delay_subscriber.rs
index 6745cdd..606a062 100644
--- a/crates/rx_core_operator_delay/src/delay_subscriber.rs
+++ b/crates/rx_core_operator_delay/src/delay_subscriber.rs
@@ -68,7 +68,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 
 		self.scheduled_work_counter.fetch_add(1, Ordering::Relaxed);
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
@@ -82,28 +82,22 @@ where
 					return;
 				}
 
-				let mut destination = destination.lock();
-				if !destination.is_closed() {
-					destination.next(next);
-				}
+				destination.next(next);
 
 				let previous_work_counter_before_sub =
-					scheduled_work_counter.fetch_sub(1, Ordering::Relaxed);
+					scheduled_work_counter.fetch_sub(1, Ordering::SeqCst);
 
-				// try complete
-				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
-					&& !destination.is_closed()
-				{
-					destination.complete();
+				if previous_work_counter_before_sub != 1 {
 					return;
 				}
 
-				// try unsubscribe
-				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
-					&& !destination.is_closed()
-				{
+				// Completion is flagged before unsubscription, another thread
+				// could be doing it right now
+				let is_unsubscribed = upstream_unsubscribed.load(Ordering::SeqCst);
+
+				if upstream_completed.load(Ordering::SeqCst) {
+					destination.complete();
+				} else if is_unsubscribed {
 					destination.unsubscribe();
 				}
 			},
@@ -124,11 +118,11 @@ where
 	#[inline]
 	fn complete(&mut self) {
 		// If there is a scheduled next, just let it also complete
-		self.upstream_completed.store(true, Ordering::Relaxed);
-		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
+		self.upstream_completed.store(true, Ordering::SeqCst);
+		self.upstream_unsubscribed.store(true, Ordering::SeqCst);
 
 		// if there aren't any, complete immediately
-		if self.scheduled_work_counter.load(Ordering::Relaxed) == 0 {
+		if self.scheduled_work_counter.load(Ordering::SeqCst) == 0 {
 			self.destination.complete();
 		}
 	}
@@ -147,10 +141,10 @@ where
 	fn unsubscribe(&mut self) {
 		if !self.is_closed() {
 			// If there is a scheduled next, just let it also unsubscribe
-			self.upstream_unsubscribed.store(true, Ordering::Relaxed);
+			self.upstream_unsubscribed.store(true, Ordering::SeqCst);
 
 			// if there aren't any, unsubscribe immediately
-			if self.scheduled_work_counter.load(Ordering::Relaxed) == 0 {
+			if self.scheduled_work_counter.load(Ordering::SeqCst) == 0 {
 				self.destination.unsubscribe();
 			}
 		}
-- 
2.43.0


From 5079c5dcdddfd35059a047da6a7975ed9fc1755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:26 +0000
Subject: [PATCH 57/61] fix: a shared subscriber must not apply what was
 deferred before it completed after that

---
 .../src/subscribers/subscriber_shared.rs      | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 75e916e..fa237f5 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -280,6 +280,23 @@ where
 		}
 	}
 
+	/// Whatever was deferred before a terminal notification is observed has to
+	/// be applied before that, even if it was deferred while already locked.
+	fn observe_terminal(
+		&self,
+		subscriber: &mut MutexGuard<'_, Destination>,
+		observe: impl Fn(&mut SubscriberDeferredState<Destination::In, Destination::InError>) -> bool,
+	) -> bool {
+		loop {
+			Self::apply_notification_queue(self.deferred_state.clone(), subscriber); // First, the notification queue!
+
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if !state.is_dirty() {
+				return observe(&mut state);
+			}
+		}
+	}
+
 	pub(crate) fn try_next(
 		&mut self,
 		next: Destination::In,
@@ -304,9 +321,10 @@ where
 	) -> Result<(), SubscriberErrorLockError<Destination::InError>> {
 		match self.shared_destination.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
+				let was_open =
+					self.observe_terminal(&mut subscribers, |state| state.observe_error());
 
-				if self.deferred_state.lock_ignore_poison().observe_error() {
+				if was_open {
 					subscribers.error(error);
 				}
 
@@ -319,13 +337,10 @@ where
 	pub(crate) fn try_complete(&mut self) -> Result<(), SubscriberCompleteLockError> {
 		match self.shared_destination.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
+				let was_open =
+					self.observe_terminal(&mut subscribers, |state| state.observe_completion());
 
-				if self
-					.deferred_state
-					.lock_ignore_poison()
-					.observe_completion()
-				{
+				if was_open {
 					subscribers.complete();
 				}
 
-- 
2.43.0


From 22ab817e0600a607a27952151d6961fce0e9fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:13 +0000
Subject: [PATCH 58/61] fix: notifications sent by other threads must not count
 as recursion

---
 .../src/subscribers/subscriber_shared.rs      | 45 ++++++++++++++++---
 .../rx_core_subject_publish/src/multicast.rs  | 30 +++++++++++--
 2 files changed, 65 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index fa237f5..d3e7caf 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -1,4 +1,7 @@
-use std::sync::{Arc, Mutex, MutexGuard, TryLockError, Weak};
+use std::{
+	sync::{Arc, Mutex, MutexGuard, TryLockError, Weak},
+	thread::{self, ThreadId},
+};
 
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -40,6 +43,13 @@ where
 {
 	pub(crate) deferred_notifications_queue: Vec<SubscriberNotification<In, InError>>,
 
+	/// The thread currently applying the notification queue.
+	pub(crate) applied_by: Option<ThreadId>,
+
+	/// If the thread currently applying the notification queue had deferred
+	/// more into it.
+	pub(crate) deferred_recursively: bool,
+
 	/// Teardowns that were added while the destination was locked.
 	pub(crate) deferred_teardowns: Vec<Teardown>,
 
@@ -74,9 +84,20 @@ where
 			_ => {}
 		}
 
+		self.note_deferral();
 		self.deferred_notifications_queue.push(notification);
 	}
 
+	fn note_deferral(&mut self) {
+		self.deferred_recursively |= self.applied_by == Some(thread::current().id());
+	}
+
+	/// Returns true if what's in the queue was deferred while applying it.
+	pub(crate) fn begin_applying(&mut self) -> bool {
+		self.applied_by = Some(thread::current().id());
+		std::mem::take(&mut self.deferred_recursively)
+	}
+
 	/// Marks it as errored, returns false if it was already closed
 	pub(crate) fn observe_error(&mut self) -> bool {
 		let was_open = !self.is_closed();
@@ -145,6 +166,8 @@ where
 			observed_unsubscribe: false,
 			observed_error: false,
 			deferred_notifications_queue: Vec::default(),
+			applied_by: None,
+			deferred_recursively: false,
 			deferred_teardowns: Vec::default(),
 		}
 	}
@@ -228,10 +251,17 @@ where
 	) where
 		D: Subscriber,
 	{
-		for queue_depth in 0..=SUBSCRIBER_MAX_RECURSION_DEPTH {
+		let mut queue_depth = 0;
+
+		loop {
 			let (teardowns, notifications) = {
 				let mut locked_state = state.lock_ignore_poison();
 
+				// Other threads can defer any number of times
+				if locked_state.begin_applying() {
+					queue_depth += 1;
+				}
+
 				// Infinite loop protection
 				if queue_depth == SUBSCRIBER_MAX_RECURSION_DEPTH {
 					panic!(
@@ -240,6 +270,7 @@ where
 				}
 
 				if !locked_state.is_dirty() {
+					locked_state.applied_by = None;
 					break;
 				}
 
@@ -460,11 +491,11 @@ where
 		match self.shared_destination.try_lock() {
 			Ok(mut destination) => destination.add_teardown(teardown),
 			// It can be the one holding the lock that adds this teardown
-			Err(TryLockError::WouldBlock) => self
-				.deferred_state
-				.lock_ignore_poison()
-				.deferred_teardowns
-				.push(teardown),
+			Err(TryLockError::WouldBlock) => {
+				let mut state = self.deferred_state.lock_ignore_poison();
+				state.note_deferral();
+				state.deferred_teardowns.push(teardown);
+			}
 			Err(TryLockError::Poisoned(poison_error)) => {
 				teardown.execute();
 				poison_error.into_inner().unsubscribe();
diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index d29304f..7255753 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -1,6 +1,7 @@
 use std::{
 	collections::HashMap,
 	sync::{Arc, Mutex, MutexGuard},
+	thread::{self, ThreadId},
 };
 
 use derive_where::derive_where;
@@ -136,10 +137,17 @@ where
 		state: Arc<Mutex<MulticastDeferredState<In, InError>>>,
 		subscribers: &mut MutexGuard<'_, Subscribers<In, InError>>,
 	) {
-		for queue_depth in 0..=MULTICAST_MAX_RECURSION_DEPTH {
+		let mut queue_depth = 0;
+
+		loop {
 			let notifications = {
 				let mut locked_state = state.lock_ignore_poison();
 
+				// Other threads can defer any number of times
+				if locked_state.begin_applying() {
+					queue_depth += 1;
+				}
+
 				// Infinite loop protection
 				if queue_depth == MULTICAST_MAX_RECURSION_DEPTH {
 					panic!(
@@ -148,6 +156,7 @@ where
 				}
 
 				if locked_state.deferred_notifications_queue.is_empty() {
+					locked_state.applied_by = None;
 					break;
 				}
 
@@ -190,8 +199,7 @@ where
 					);
 
 				// Other notifications can be safely dropped when already closed
-				if is_about_subscription
-					|| !state.lock_clear_poison().is_closed_ignoring_deferred()
+				if is_about_subscription || !state.lock_clear_poison().is_closed_ignoring_deferred()
 				{
 					subscribers.apply(notification);
 				}
@@ -324,6 +332,13 @@ where
 {
 	pub(crate) deferred_notifications_queue: Vec<MulticastNotification<In, InError>>,
 
+	/// The thread currently applying the notification queue.
+	pub(crate) applied_by: Option<ThreadId>,
+
+	/// If the thread currently applying the notification queue had deferred
+	/// more into it.
+	pub(crate) deferred_recursively: bool,
+
 	/// Separate close flag for the real, applied closedness, as non-deferred
 	/// signals only have to respect this.
 	pub(crate) closed_flag: SubscriptionClosedFlag,
@@ -364,9 +379,16 @@ where
 			return;
 		}
 
+		self.deferred_recursively |= self.applied_by == Some(thread::current().id());
 		self.deferred_notifications_queue.push(notification);
 	}
 
+	/// Returns true if what's in the queue was deferred while applying it.
+	pub(crate) fn begin_applying(&mut self) -> bool {
+		self.applied_by = Some(thread::current().id());
+		std::mem::take(&mut self.deferred_recursively)
+	}
+
 	pub(crate) fn drain_notification_queue(&mut self) -> Vec<MulticastNotification<In, InError>> {
 		self.deferred_notifications_queue
 			.drain(..)
@@ -420,6 +442,8 @@ where
 			observed_state: SubscriberState::default(),
 			observed_error: None,
 			deferred_notifications_queue: Vec::default(),
+			applied_by: None,
+			deferred_recursively: false,
 		}
 	}
 }
-- 
2.43.0


From 9147dc96d242c76607f1cdfcb01aca56f562f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:19 +0000
Subject: [PATCH 59/61] fix: a shared destination must not miss what was sent
 to it while it was asked if it's closed

---
 .../src/subscribers/subscriber_shared.rs      | 35 ++++++++++++++-----
 .../src/subscriptions/subscription_shared.rs  | 33 ++++++++++++-----
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index d3e7caf..fefbd55 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -1,5 +1,5 @@
 use std::{
-	sync::{Arc, Mutex, MutexGuard, TryLockError, Weak},
+	sync::{Arc, Mutex, MutexGuard, TryLockError, TryLockResult, Weak},
 	thread::{self, ThreadId},
 };
 
@@ -201,6 +201,8 @@ where
 	#[destination]
 	shared_destination: Arc<Mutex<Destination>>,
 	deferred_state: Arc<Mutex<SubscriberDeferredState<Destination::In, Destination::InError>>>,
+	/// Held while the destination is only locked to see if it's closed.
+	peek: Arc<Mutex<()>>,
 }
 
 impl<Destination> SharedSubscriber<Destination>
@@ -210,6 +212,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			deferred_state: Arc::new(Mutex::new(SubscriberDeferredState::default())),
+			peek: Arc::default(),
 			shared_destination: Arc::new(Mutex::new(destination)),
 		}
 	}
@@ -233,10 +236,17 @@ where
 		Arc::downgrade(&self.shared_destination)
 	}
 
-	fn try_apply_deferred(&mut self) {
+	/// If it's locked for anything else than a peek, then whoever locked it
+	/// will apply what's deferred.
+	fn try_lock_unless_peeked(&self) -> TryLockResult<MutexGuard<'_, Destination>> {
+		let _no_peek = self.peek.lock_ignore_poison();
+		self.shared_destination.try_lock()
+	}
+
+	fn try_apply_deferred(&self) {
 		// Others can defer more for as long as it's locked here
 		while self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscriber) = self.shared_destination.try_lock()
+			&& let Ok(mut subscriber) = self.try_lock_unless_peeked()
 		{
 			SharedSubscriber::<Destination>::apply_notification_queue::<Destination>(
 				self.deferred_state.clone(),
@@ -406,6 +416,7 @@ where
 	fn clone(&self) -> Self {
 		Self {
 			deferred_state: self.deferred_state.clone(),
+			peek: self.peek.clone(),
 			shared_destination: self.shared_destination.clone(),
 		}
 	}
@@ -457,12 +468,18 @@ where
 	Destination: 'static + Subscriber + Send + Sync,
 {
 	fn is_closed(&self) -> bool {
-		self.deferred_state.lock_ignore_poison().is_closed()
-			|| self
-				.shared_destination
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
+		if self.deferred_state.lock_ignore_poison().is_closed() {
+			return true;
+		}
+
+		let Ok(_peek) = self.peek.try_lock() else {
+			return false;
+		};
+
+		self.shared_destination
+			.try_lock()
+			.map(|s| s.is_closed())
+			.unwrap_or(false)
 	}
 
 	fn unsubscribe(&mut self) {
diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 830528c..3830f08 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex, MutexGuard, TryLockError};
+use std::sync::{Arc, Mutex, MutexGuard, TryLockError, TryLockResult};
 
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -97,6 +97,8 @@ pub struct SharedSubscription {
 	#[destination]
 	subscription: Arc<Mutex<SubscriptionData>>,
 	deferred_state: Arc<Mutex<SubscriptionDeferredState>>,
+	/// Held while the subscription is only locked to see if it's closed.
+	peek: Arc<Mutex<()>>,
 }
 
 impl SharedSubscription {
@@ -110,10 +112,17 @@ impl SharedSubscription {
 		shared_subscription
 	}
 
-	fn try_apply_deferred(&mut self) {
+	/// If it's locked for anything else than a peek, then whoever locked it
+	/// will apply what's deferred.
+	fn try_lock_unless_peeked(&self) -> TryLockResult<MutexGuard<'_, SubscriptionData>> {
+		let _no_peek = self.peek.lock_ignore_poison();
+		self.subscription.try_lock()
+	}
+
+	fn try_apply_deferred(&self) {
 		// Others can defer more for as long as it's locked here
 		while self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscription) = self.subscription.try_lock()
+			&& let Ok(mut subscription) = self.try_lock_unless_peeked()
 		{
 			SharedSubscription::apply_notification_queue(
 				self.deferred_state.clone(),
@@ -192,12 +201,18 @@ impl SharedSubscription {
 
 impl SubscriptionLike for SharedSubscription {
 	fn is_closed(&self) -> bool {
-		self.deferred_state.lock_ignore_poison().is_closed()
-			|| self
-				.subscription
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
+		if self.deferred_state.lock_ignore_poison().is_closed() {
+			return true;
+		}
+
+		let Ok(_peek) = self.peek.try_lock() else {
+			return false;
+		};
+
+		self.subscription
+			.try_lock()
+			.map(|s| s.is_closed())
+			.unwrap_or(false)
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From 9d0248bf1edade261cd750076c30eefec5ef3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:08 +0000
Subject: [PATCH 60/61] fix: share must disconnect when its last subscriber
 leaves on another thread while connecting

---
 .../src/connectable_observable.rs             | 43 +++++++++++++------
 .../src/share_observable.rs                   |  6 +--
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index fcc21c4..9222074 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -74,8 +74,23 @@ where
 	/// When `disconnect_when_ref_count_zero` is set, and there are no
 	/// subscribers (anymore), disconnects.
 	pub fn disconnect_when_unused(&mut self) -> bool {
-		let is_unused = self.connection_state.lock_ignore_poison().is_unused();
-		is_unused && self.disconnect()
+		let connection = {
+			// Nobody can subscribe in between
+			let connection_state = self.connection_state.lock_ignore_poison();
+			if !connection_state.is_unused() {
+				return false;
+			}
+			self.connection.lock_ignore_poison().take_connection()
+		};
+
+		if let Some(mut connection) = connection
+			&& !connection.is_closed()
+		{
+			connection.unsubscribe();
+			return true;
+		}
+
+		false
 	}
 
 	/// Returns a function that when called, if its enabled drops the connector
@@ -186,19 +201,19 @@ where
 		subscription.add_fn(move || {
 			// If, and only if when `disconnect_when_ref_count_zero` is set,
 			// and the ref count dropped to zero this function returns true
-			let should_disconnect = connection_state_clone
-				.lock_ignore_poison()
-				.decrement_subscriber_count();
-
-			if should_disconnect {
-				let connection_to_disconnect =
-					connection_clone.lock_ignore_poison().take_connection();
+			let connection_to_disconnect = {
+				// Nobody can subscribe in between
+				let mut connection_state = connection_state_clone.lock_ignore_poison();
+				connection_state
+					.decrement_subscriber_count()
+					.then(|| connection_clone.lock_ignore_poison().take_connection())
+					.flatten()
+			};
 
-				if let Some(mut connection) = connection_to_disconnect
-					&& !connection.is_closed()
-				{
-					connection.unsubscribe();
-				}
+			if let Some(mut connection) = connection_to_disconnect
+				&& !connection.is_closed()
+			{
+				connection.unsubscribe();
 			}
 		});
 
diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 81a80cf..ea2fa7e 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -78,10 +78,8 @@ where
 		if !subscription.is_closed() {
 			self.connect();
 
-			if subscription.is_closed() {
-				// Could've been closed by another thread before connecting
-				self.connectable.disconnect_when_unused();
-			}
+			// Could've been closed by another thread before connecting
+			self.connectable.disconnect_when_unused();
 		}
 
 		subscription
-- 
2.43.0


From 11bed40984ab7d35d66f386198f57211bcdc768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:28 +0000
Subject: [PATCH 61/61] fix: retry must not retry twice for an error on another
 thread while still subscribing

---
 .../src/retry_observable.rs                   | 17 +++--
 .../src/retry_subscriber.rs                   | 68 +++++++++++++------
 2 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 52a3dd4..eda7e40 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -7,7 +7,7 @@ use derive_where::derive_where;
 use rx_core_common::*;
 use rx_core_macro_observable_derive::RxObservable;
 
-use crate::internal::{RetrySubscriber, SOURCE_STEAL};
+use crate::internal::{Attempts, RetrySubscriber, SOURCE_STEAL};
 
 #[derive_where(Clone)]
 #[derive(RxObservable)]
@@ -58,12 +58,15 @@ where
 
 		let mut immediate_retries = 0;
 
-		let caught_error = Arc::new(Mutex::new(None));
+		let attempts = Arc::new(Mutex::new(Attempts {
+			subscribing: true,
+			caught_error: None,
+		}));
 
 		let last_subscription = Arc::new(Mutex::new(Option::<SharedSubscription>::None));
 
 		while immediate_retries <= self.max_retries {
-			caught_error.lock_ignore_poison().take();
+			attempts.lock_ignore_poison().caught_error.take();
 			let mut stolen_source = self.source.lock_ignore_poison().take().expect(SOURCE_STEAL);
 
 			let next_subscription = stolen_source.subscribe(RetrySubscriber::new(
@@ -73,7 +76,7 @@ where
 				immediate_retries,
 				outer_subscription.clone(),
 				last_subscription.clone(),
-				caught_error.clone(),
+				attempts.clone(),
 			));
 
 			if !next_subscription.is_closed() {
@@ -87,7 +90,9 @@ where
 
 			let is_destination_closed = shared_destination.is_closed();
 
-			if is_destination_closed || caught_error.lock_ignore_poison().is_some() {
+			let is_subscribed = attempts.lock_ignore_poison().is_subscribed();
+
+			if is_destination_closed || !is_subscribed {
 				let finished_subscription = last_subscription.lock_ignore_poison().take();
 				if let Some(mut finished_subscription) = finished_subscription {
 					finished_subscription.unsubscribe();
@@ -106,7 +111,7 @@ where
 
 		// Only an error that couldn't be retried anymore is left here, if the
 		// last attempt didn't fail it's still active!
-		let last_error = caught_error.lock_ignore_poison().take();
+		let last_error = attempts.lock_ignore_poison().caught_error.take();
 		if let Some(error) = last_error {
 			shared_destination.error(error);
 			shared_destination.unsubscribe();
diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index 3ddf82c..d7c388f 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -1,5 +1,6 @@
 use std::sync::{Arc, Mutex};
 
+use derive_where::derive_where;
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, ObserverTerminalNotification, RxObserver, SharedSubscriber,
 	SharedSubscription, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
@@ -9,6 +10,33 @@ use rx_core_macro_subscriber_derive::RxSubscriber;
 
 pub(crate) const SOURCE_STEAL: &str = "Source should be present!";
 
+/// The source can fail on another thread while it's still being subscribed to,
+/// only one of them can retry.
+#[derive_where(Default)]
+pub(crate) struct Attempts<E> {
+	pub(crate) subscribing: bool,
+	pub(crate) caught_error: Option<E>,
+}
+
+impl<E> Attempts<E> {
+	/// Returns nothing if it will be retried by who's subscribing right now
+	fn start_retrying(&mut self, error: E) -> Option<E> {
+		if self.subscribing {
+			self.caught_error.replace(error);
+			None
+		} else {
+			self.subscribing = true;
+			Some(error)
+		}
+	}
+
+	/// Returns `true` if the attempt to subscribe hasn't failed yet
+	pub(crate) fn is_subscribed(&mut self) -> bool {
+		self.subscribing = self.caught_error.is_some();
+		!self.subscribing
+	}
+}
+
 #[derive(RxSubscriber)]
 #[rx_in(Destination::In)]
 #[rx_in_error(Destination::InError)]
@@ -25,7 +53,7 @@ where
 	destination: SharedSubscriber<Destination>,
 	outer_subscription: SharedSubscription,
 	last_subscription: Arc<Mutex<Option<SharedSubscription>>>,
-	caught_error: Arc<Mutex<Option<Source::OutError>>>,
+	attempts: Arc<Mutex<Attempts<Source::OutError>>>,
 	/// What this attempt holds on to, released as soon as it failed, instead of
 	/// when the destination closes
 	teardown: SubscriptionData,
@@ -43,7 +71,7 @@ where
 		retries: usize,
 		outer_subscription: SharedSubscription,
 		last_subscription: Arc<Mutex<Option<SharedSubscription>>>,
-		caught_error: Arc<Mutex<Option<Source::OutError>>>,
+		attempts: Arc<Mutex<Attempts<Source::OutError>>>,
 	) -> Self {
 		Self {
 			source,
@@ -52,7 +80,7 @@ where
 			finished_with: None,
 			max_retries,
 			retries,
-			caught_error,
+			attempts,
 			last_subscription,
 			teardown: SubscriptionData::default(),
 		}
@@ -68,7 +96,7 @@ where
 		};
 
 		self.finished_with = None;
-		self.caught_error.lock_ignore_poison().take();
+		self.attempts.lock_ignore_poison().caught_error.take();
 	}
 
 	fn finish(&mut self) {
@@ -100,7 +128,7 @@ where
 		}
 	}
 
-	fn error(&mut self, mut error: Self::InError) {
+	fn error(&mut self, error: Self::InError) {
 		self.teardown.unsubscribe();
 
 		if self.destination.is_closed() || self.outer_subscription.is_closed() {
@@ -109,10 +137,9 @@ where
 			return;
 		}
 
-		// If the source is "stolen", it's still owned by the observables
-		// subscribe method. It will check the caught error and retry there.
-		if self.source.lock_ignore_poison().is_none() {
-			self.caught_error.lock_ignore_poison().replace(error);
+		// If it's still being subscribed to, that will check the caught error and
+		// retry there.
+		let Some(mut error) = self.attempts.lock_ignore_poison().start_retrying(error) else {
 			return;
 		};
 
@@ -128,7 +155,7 @@ where
 				self.retries,
 				self.outer_subscription.clone(),
 				self.last_subscription.clone(),
-				self.caught_error.clone(),
+				self.attempts.clone(),
 			));
 
 			self.source.lock_ignore_poison().replace(stolen_source);
@@ -139,17 +166,19 @@ where
 					.replace(SharedSubscription::new(next_subscription));
 			}
 
-			let caught_error = self.caught_error.lock_ignore_poison().take();
-			if let Some(caught_error) = caught_error {
-				if self.retries <= self.max_retries {
-					// That's the one that won't be retried if there's no more left
-					error = caught_error;
-				}
-				continue;
-			} else {
+			let is_subscribed = self.attempts.lock_ignore_poison().is_subscribed();
+			if is_subscribed {
 				self.outer_subscription.add(self.last_subscription.clone());
 				break;
 			}
+
+			let caught_error = self.attempts.lock_ignore_poison().caught_error.take();
+			if let Some(caught_error) = caught_error
+				&& self.retries <= self.max_retries
+			{
+				// That's the one that won't be retried if there's no more left
+				error = caught_error;
+			}
 		}
 
 		self.finished_with = Some(ObserverTerminalNotification::Error(error));
@@ -188,7 +217,8 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		if self.caught_error.lock_ignore_poison().is_none() && self.finished_with.is_none() {
+		if self.attempts.lock_ignore_poison().caught_error.is_none() && self.finished_with.is_none()
+		{
 			self.finish();
 		}
 	}
-- 
2.43.0

