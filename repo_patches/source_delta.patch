From c60b265e4e6d0435d5b59b026a9040d398965c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 01/54] fix: retry keeps a successful last attempt open and
 reports the latest error

---
 .../src/retry_observable.rs                       |  7 +++----
 .../src/retry_subscriber.rs                       | 15 +++++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 30cea51..d03877c 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -98,10 +98,9 @@ where
 			}
 		}
 
-		if immediate_retries > self.max_retries {
-			if let Some(error) = caught_error.lock_ignore_poison().take() {
-				shared_destination.error(error);
-			}
+		// Only present when the last allowed attempt errored too.
+		if let Some(error) = caught_error.lock_ignore_poison().take() {
+			shared_destination.error(error);
 			shared_destination.unsubscribe();
 			outer_subscription.unsubscribe();
 		}
diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index b57c4ac..1192f10 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -55,7 +55,7 @@ where
 	}
 
 	#[inline]
-	fn reset(&mut self) {
+	fn reset(&mut self) -> Option<Source::OutError> {
 		if let Some(mut last_subscription) = self.last_subscription.lock_ignore_poison().take()
 			&& !last_subscription.is_closed()
 		{
@@ -63,7 +63,7 @@ where
 		};
 
 		self.finished_with = None;
-		self.caught_error.lock_ignore_poison().take();
+		self.caught_error.lock_ignore_poison().take()
 	}
 
 	fn finish(&mut self) {
@@ -92,7 +92,7 @@ where
 		}
 	}
 
-	fn error(&mut self, error: Self::InError) {
+	fn error(&mut self, mut error: Self::InError) {
 		// If the source is "stolen", it's still owned by the observables
 		// subscribe method. It will check the caught error and retry there.
 		if self.source.lock_ignore_poison().is_none() {
@@ -102,7 +102,10 @@ where
 
 		while self.retries <= self.max_retries {
 			let mut stolen_source = self.source.lock_ignore_poison().take().expect(SOURCE_STEAL);
-			self.reset();
+			// The error that ended the latest attempt is the one to report.
+			if let Some(caught_error) = self.reset() {
+				error = caught_error;
+			}
 			self.retries += 1;
 
 			let next_subscription = stolen_source.subscribe(RetrySubscriber::new(
@@ -131,6 +134,10 @@ where
 			}
 		}
 
+		if let Some(caught_error) = self.caught_error.lock_ignore_poison().take() {
+			error = caught_error;
+		}
+
 		self.finished_with = Some(ObserverTerminalNotification::Error(error));
 
 		if self.retries > self.max_retries {
-- 
2.43.0


From 72375f7ea908a9686035cca58fad45b00465f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 02/54] fix: with_latest_from releases its inner source when
 the stream ends

---
 .../src/with_latest_from_subscriber.rs              | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
index 1833da2..44bd45b 100644
--- a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
+++ b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
@@ -4,8 +4,8 @@ use std::{
 };
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Observable, ObserverSubscriber, PhantomInvariant, RxObserver,
-	SharedSubscriber, Signal, Subscriber, SubscriptionLike,
+	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber, Signal,
+	Subscriber, SubscriptionLike, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -25,9 +25,6 @@ where
 {
 	#[destination]
 	destination: SharedSubscriber<Destination>,
-	inner_subscription: <InnerObservable as Observable>::Subscription<
-		ObserverSubscriber<WithLatestFromInnerDestination<InnerObservable::Out, Destination>>,
-	>,
 	state: Arc<Mutex<WithLatestFromInnerDestinationState<InnerObservable::Out>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -40,16 +37,15 @@ where
 	Destination: Subscriber<In = (In, InnerObservable::Out), InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, inner_observable: &mut InnerObservable) -> Self {
-		let shared_destination = SharedSubscriber::new(destination);
+		let mut shared_destination = SharedSubscriber::new(destination);
 		let inner_destination =
 			WithLatestFromInnerDestination::<InnerObservable::Out, Destination>::new(
 				shared_destination.clone(),
 			);
 		let state = inner_destination.get_state();
-		let inner_subscription = inner_observable.subscribe(inner_destination);
+		shared_destination.add(inner_observable.subscribe(inner_destination));
 		Self {
 			destination: shared_destination,
-			inner_subscription,
 			state,
 			_phantom_data: PhantomData,
 		}
@@ -98,7 +94,6 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		self.inner_subscription.unsubscribe();
 		self.destination.unsubscribe();
 	}
 }
-- 
2.43.0


From 1bd9e942aa14e4556f8ef153a39d3d61d3500987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 03/54] fix: switch, exhaust and catch report themselves closed
 once downstream closed

---
 crates/rx_core_operator_catch/src/catch_subscriber.rs         | 4 ++--
 .../src/exhaust_subscriber.rs                                 | 4 ++--
 .../src/switch_subscriber.rs                                  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index e15f27f..57fa732 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -167,11 +167,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
 				subscription_handle.unsubscribe();
 			};
diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 78ecd64..8cf9688 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -124,11 +124,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription {
 				subscription_handle.unsubscribe();
 			};
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index e19c081..18de9a3 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -141,11 +141,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-- 
2.43.0


From 74a567e62e455c10a71cbdb643e406113d994858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 04/54] fix: merge_all and concat_all start no queued source
 while being torn down

---
 .../src/concurrent_subscriber.rs                  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 4c13b47..c0b2ace 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -38,7 +38,9 @@ where
 {
 	pub fn new(destination: Destination, concurrency_limit: NonZero<usize>) -> Self {
 		let mut shared_destination = SharedSubscriber::new(destination);
-		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::default()));
+		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::<
+			ConcurrentSubscriberQueue<InnerObservable>,
+		>::default()));
 		let inner_subscriptions = Arc::new(Mutex::new(Slab::<SubscriptionData>::new()));
 		let mut outer_teardown = SharedSubscription::default();
 
@@ -46,6 +48,14 @@ where
 		let state_on_unsubscribe = state.clone();
 
 		outer_teardown.add_fn(move || {
+			// Nothing may start anymore, not even what a just freed up slot would let in.
+			let queue = {
+				let mut state = state_on_unsubscribe.lock_ignore_poison();
+				state.upstream_subscriber_state.unsubscribe_if_not_already();
+				std::mem::take(&mut state.state.queue)
+			};
+			drop(queue);
+
 			let inner_subscriptions = inner_subscriptions_on_unsubscribe
 				.lock_ignore_poison()
 				.drain()
@@ -54,9 +64,6 @@ where
 			for mut inner_subscription in inner_subscriptions {
 				inner_subscription.unsubscribe();
 			}
-
-			let mut state = state_on_unsubscribe.lock_ignore_poison();
-			state.upstream_subscriber_state.unsubscribe_if_not_already();
 		});
 
 		shared_destination.add(outer_teardown.clone());
-- 
2.43.0


From 250b8a5caecc2a5e93cc8f271e625f764a8cc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 05/54] fix: merge_all gives the slot of any ended inner source
 to the next queued one

---
 .../src/concurrent_subscriber.rs                  | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index c0b2ace..e449f31 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -132,7 +132,6 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 
 	let inner_subscriptions_clone = inner_subscriptions.clone();
 
-	let concurrency_limit_minus_one: usize = usize::from(concurrency_limit) - 1;
 	let outer_teardown_on_complete_clone = outer_teardown.clone();
 	let mut outer_teardown_on_unsubscribe = outer_teardown.clone();
 	let mut shared_destination_on_unsubscribe = shared_destination.clone();
@@ -150,17 +149,11 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 				concurrency_limit,
 			);
 		},
-		move |key| {
-			let no_more_subscribers_besides_this = {
-				let mut inner_subscriptions = inner_subscriptions.lock_ignore_poison();
-				inner_subscriptions.retain(|_k, s| !s.is_closed());
-				inner_subscriptions
-					.iter()
-					.filter(|(k, _)| *k != key)
-					.count() == concurrency_limit_minus_one
-			};
+		move |_key| {
+			let has_free_slot = state.lock_ignore_poison().non_completed_subscriptions
+				< usize::from(concurrency_limit);
 
-			if no_more_subscribers_besides_this
+			if has_free_slot
 				&& !state
 					.lock_ignore_poison()
 					.downstream_subscriber_state
-- 
2.43.0


From c52548a5d2ed94f7cf181268007e7d96c2d080f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 06/54] fix: combine_latest ends when an input unsubscribes
 before its first value

---
 .../src/combine_latest_subscriber.rs                          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
index 159924b..6b0d740 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
@@ -81,8 +81,8 @@ where
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed()
 			&& ((self.o1_state.is_closed() && self.o2_state.is_closed())
-				|| (self.o1_state.is_waiting() && self.o2_state.is_closed_but_not_primed())
-				|| (self.o1_state.is_closed_but_not_primed() && self.o2_state.is_waiting()))
+				|| self.o1_state.is_closed_but_not_primed()
+				|| self.o2_state.is_closed_but_not_primed())
 		{
 			self.destination.unsubscribe();
 		}
-- 
2.43.0


From 967232e8e9dc31b58e788bc5b3814601049fb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:35 +0000
Subject: [PATCH 07/54] fix: zip ends when an ended input has no queued value
 left

---
 crates/rx_core_observable_zip/src/zip_subscriber.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index b8537d2..6f96c47 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -74,21 +74,18 @@ where
 			.or_else(|| self.o2_queue.take_error().map(|error| error.into()))
 	}
 
+	/// A queue only reports its completion once its values are used up, no further
+	/// pairs are possible then.
 	fn try_complete(&mut self) {
 		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_completed() && self.o2_queue.is_completed())
-				|| (self.o1_queue.is_completed() && self.o2_queue.is_empty())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_completed()))
+			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_closed() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_closed() && self.o2_queue.is_empty()))
+		if !self.destination.is_closed() && (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
 			self.destination.unsubscribe();
 		}
-- 
2.43.0


From 3dc6f8f9e2da7e0c95d90b02fcb4ab100a7d3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 08/54] fix: the iterator observable pulls nothing after its
 subscriber closed

---
 .../src/iterator_observable.rs                           | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_observable_iterator/src/iterator_observable.rs b/crates/rx_core_observable_iterator/src/iterator_observable.rs
index 848a939..489bfe0 100644
--- a/crates/rx_core_observable_iterator/src/iterator_observable.rs
+++ b/crates/rx_core_observable_iterator/src/iterator_observable.rs
@@ -44,13 +44,12 @@ where
 		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError>,
 	{
 		let mut destination = observer.upgrade();
-		for item in self.iterator.clone().into_iter() {
-			if destination.is_closed() {
-				break;
-			}
+		let mut iterator = self.iterator.clone().into_iter();
+		while !destination.is_closed()
+			&& let Some(item) = iterator.next()
+		{
 			destination.next(item);
 		}
-
 		if !destination.is_closed() {
 			destination.complete();
 		}
-- 
2.43.0


From ac144204076dbfd7f03435b95ef3296e8353a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:55 +0000
Subject: [PATCH 09/54] fix: cancelling invoked work keeps the pending
 invocations of other work

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 7e22a44..74278b1 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -173,7 +173,7 @@ where
 				ScheduledWorkAction::CancelInvoked(cancelled_invocation_id) => {
 					self.invokable_work.remove(&cancelled_invocation_id);
 					self.invoked
-						.retain(|invoked_id| invoked_id == &cancelled_invocation_id);
+						.retain(|invoked_id| invoked_id != &cancelled_invocation_id);
 				}
 				ScheduledWorkAction::Cancel(cancelled_id) => {
 					if let Some(work_ids) = self.cancellation_map.remove(&cancelled_id) {
-- 
2.43.0


From e631227b58634e725f193d71fe6569a3f47af005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:30 +0000
Subject: [PATCH 10/54] fix: repeated work without an interval runs up to its
 per tick limit instead of hanging

---
 .../src/work/ticked_work_repeating.rs                       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
index ed0695a..62530b9 100644
--- a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
+++ b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
@@ -93,6 +93,12 @@ where
 				self.start_immediately = false;
 			}
 			executions += 1;
+
+			// Without an interval there is always more work due, so only the
+			// limit can end this.
+			if self.interval.is_zero() && executions >= self.max_work_per_tick.into() {
+				break;
+			}
 		}
 		work_result
 	}
-- 
2.43.0


From 34d8c3c8076a7c4d7d2cb2e12e93a3edfdc423bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 11/54] fix: throttle_time drops its trailing value when a tick
 passes the window's end

---
 .../src/throttle_time_subscriber.rs           | 40 +++++++------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 381f2f4..ba8a4cd 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -96,35 +96,23 @@ where
 						return WorkResult::Pending;
 					}
 
-					if deadline < state.last_tick_time {
-						state.throttle_deadline = None;
-
-						(
-							false,
-							None,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					let emit_value = if options.output_behavior.emits_trailing() {
+						state.last_value.take()
 					} else {
-						let emit_value = if options.output_behavior.emits_trailing() {
-							state.last_value.take()
-						} else {
-							state.last_value = None;
-							None
-						};
+						state.last_value = None;
+						None
+					};
 
-						let continue_for_cooldown = emit_value.is_some();
-						if !continue_for_cooldown {
-							state.throttle_deadline = None;
-						}
+					// The cooldown lasts from the trailing emission to the next tick
+					let continue_for_cooldown = emit_value.is_some();
+					state.throttle_deadline = continue_for_cooldown.then_some(state.last_tick_time);
 
-						(
-							continue_for_cooldown,
-							emit_value,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
-					}
+					(
+						continue_for_cooldown,
+						emit_value,
+						state.upstream_state.is_completed(),
+						state.upstream_state.is_closed_but_not_completed(),
+					)
 				};
 
 				if let Some(value) = emit_value {
-- 
2.43.0


From 85b7b4a9bd19272fa65d0953a7bfebfa95edf520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 12/54] fix: throttle_time schedules work although its leading
 value closed the downstream

---
 .../src/throttle_time_subscriber.rs                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index ba8a4cd..4b24c6a 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -182,7 +182,7 @@ where
 			was_idle
 		};
 
-		if was_idle {
+		if was_idle && !self.destination.is_closed() {
 			self.schedule_throttle_work();
 		}
 	}
-- 
2.43.0


From 8c7f2a204048f14e7e9b5c55b34cf6f95ebb1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 13/54] fix: throttle_time panics when its source ends earlier
 in the same tick

---
 .../src/throttle_time_subscriber.rs                        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 4b24c6a..827e75b 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -88,9 +88,10 @@ where
 					let mut state = state.lock_ignore_poison();
 					state.last_tick_time = tick.now();
 
-					let deadline = state
-						.throttle_deadline
-						.expect("scheduled work always has an active throttle deadline");
+					// Throttling may have just ended, before this work was cancelled
+					let Some(deadline) = state.throttle_deadline else {
+						return WorkResult::Done;
+					};
 
 					if state.last_tick_time < deadline {
 						return WorkResult::Pending;
-- 
2.43.0


From 221cb4504ad48c56259cd84d311a16a92981a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 14/54] fix: observe_on does not report itself closed after a
 deferred unsubscription

---
 crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 19c255e..8d9ce80 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -129,7 +129,7 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.destination.is_closed()
+		self.destination.is_closed() || self.upstream_unsubscribed.load(Ordering::Relaxed)
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From ff21ffbdaff5e86e5b156d672ea7c0d995cee1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:21 +0000
Subject: [PATCH 15/54] fix: debounce_time loses the newest value when the
 previous one is due in the same tick

---
 .../src/debounce_time_subscriber.rs           | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index 9b1d943..660ee15 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -29,7 +29,9 @@ where
 	cancellation_id: WorkCancellationId,
 	upstream_completed: Arc<AtomicBool>,
 	upstream_unsubscribed: Arc<AtomicBool>,
-	scheduled_work_counter: Arc<AtomicUsize>,
+	/// The ordinal of the pending value, zero when there's none.
+	pending_value: Arc<AtomicUsize>,
+	observed_values: usize,
 }
 
 impl<Destination, S> DebounceTimeSubscriber<Destination, S>
@@ -54,7 +56,8 @@ where
 			cancellation_id,
 			upstream_completed: Arc::new(AtomicBool::new(false)),
 			upstream_unsubscribed: Arc::new(AtomicBool::new(false)),
-			scheduled_work_counter: Arc::new(AtomicUsize::new(0)),
+			pending_value: Arc::new(AtomicUsize::new(0)),
+			observed_values: 0,
 		}
 	}
 }
@@ -67,13 +70,15 @@ where
 	#[inline]
 	fn next(&mut self, next: Self::In) {
 		let destination = self.destination.clone();
-		let scheduled_work_counter = self.scheduled_work_counter.clone();
+		self.observed_values += 1;
+		let value_ordinal = self.observed_values;
+		let pending_value = self.pending_value.clone();
 		let upstream_completed = self.upstream_completed.clone();
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 
 		let mut scheduler = self.scheduler.lock();
 		scheduler.cancel(self.cancellation_id);
-		self.scheduled_work_counter.store(1, Ordering::Relaxed);
+		self.pending_value.store(value_ordinal, Ordering::Relaxed);
 		scheduler.schedule_delayed_work(
 			move |_, _| {
 				let mut destination = destination.lock();
@@ -81,12 +86,15 @@ where
 					destination.next(next);
 				}
 
-				let previous_work_counter_before_sub =
-					scheduled_work_counter.swap(0, Ordering::Relaxed);
+				// A newer value may already be pending if it was observed
+				// earlier during the same tick.
+				let was_last_pending_value = pending_value
+					.compare_exchange(value_ordinal, 0, Ordering::Relaxed, Ordering::Relaxed)
+					.is_ok();
 
 				// try complete
 				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& was_last_pending_value
 					&& !destination.is_closed()
 				{
 					destination.complete();
@@ -95,7 +103,7 @@ where
 
 				// try unsubscribe
 				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& was_last_pending_value
 					&& !destination.is_closed()
 				{
 					destination.unsubscribe();
@@ -109,7 +117,7 @@ where
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
-		self.scheduled_work_counter.store(0, Ordering::Relaxed);
+		self.pending_value.store(0, Ordering::Relaxed);
 		self.scheduler.lock().cancel(self.cancellation_id);
 		self.destination.error(error);
 	}
@@ -121,7 +129,7 @@ where
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 
 		// if there aren't any, complete immediately
-		if self.scheduled_work_counter.load(Ordering::Relaxed) == 0 {
+		if self.pending_value.load(Ordering::Relaxed) == 0 {
 			self.destination.complete();
 		}
 	}
@@ -143,7 +151,7 @@ where
 			self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 
 			// if there aren't any, unsubscribe immediately
-			if self.scheduled_work_counter.load(Ordering::Relaxed) == 0 {
+			if self.pending_value.load(Ordering::Relaxed) == 0 {
 				self.destination.unsubscribe();
 			}
 		}
-- 
2.43.0


From 7198f360480a980aaefa89caf982ad59b6aeb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 16/54] fix: fallback_when_silent keeps working after its
 downstream closed

---
 .../src/fallback_when_silent_subscriber.rs                  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
index 75c037f..55f9cde 100644
--- a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
+++ b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
@@ -67,6 +67,9 @@ where
 		let mut index = 0;
 		scheduler.schedule_continuous_work(
 			move |tick, context| {
+				if shared_destination_clone.is_closed() {
+					return WorkResult::Done;
+				}
 				let observed_next = {
 					let mut state = shared_state_clone.lock().unwrap_or_else(|a| a.into_inner());
 					state.next_observed_this_tick.take()
@@ -75,6 +78,9 @@ where
 				let next = observed_next.unwrap_or_else(|| fallback(tick, context, index));
 				index += 1;
 				shared_destination_clone.next(next);
+				if shared_destination_clone.is_closed() {
+					return WorkResult::Done;
+				}
 
 				WorkResult::Pending
 			},
-- 
2.43.0


From 5179521fe6e355b7efb962a7ea9a8da2cbb754e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:04 +0000
Subject: [PATCH 17/54] fix: a ticked iterator without further items never
 completes

---
 .../src/iterator_on_tick_subscription.rs            | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 76592c0..2bdc76b 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -70,6 +70,19 @@ where
 			destination.next(next);
 		}
 
+		// Without anything left to emit there is nothing to wait for
+		if peekable_iterator.peek().is_none() {
+			if !destination.is_closed() {
+				destination.complete();
+			}
+			return OnTickIteratorSubscription {
+				destination,
+				owner_id: None,
+				scheduler,
+				_phantom_data: PhantomData,
+			};
+		}
+
 		let owner_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let owner_id = scheduler.generate_cancellation_id();
-- 
2.43.0


From e7ba5cec3ecbcd85fe2f0739841df4f762b0baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 18/54] fix: BehaviorSubject ignores values pushed after it was
 closed

---
 crates/rx_core_subject_behavior/src/behavior_subject.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subject_behavior/src/behavior_subject.rs b/crates/rx_core_subject_behavior/src/behavior_subject.rs
index 73da64d..c6a1174 100644
--- a/crates/rx_core_subject_behavior/src/behavior_subject.rs
+++ b/crates/rx_core_subject_behavior/src/behavior_subject.rs
@@ -1,7 +1,8 @@
 use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		*self.value.lock_ignore_poison() = next.clone();
 		self.subject.next(next);
 	}
-- 
2.43.0


From 25a61e6b99eb92ccbd9f5d9605f8bf70b824ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 19/54] fix: ReplaySubject ignores values pushed after it was
 closed

---
 crates/rx_core_subject_replay/src/replay_subject.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subject_replay/src/replay_subject.rs b/crates/rx_core_subject_replay/src/replay_subject.rs
index 654e2da..c37af77 100644
--- a/crates/rx_core_subject_replay/src/replay_subject.rs
+++ b/crates/rx_core_subject_replay/src/replay_subject.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use ringbuffer::{ConstGenericRingBuffer, RingBuffer};
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		self.values.lock_ignore_poison().enqueue(next.clone());
 
 		self.subject.next(next);
-- 
2.43.0


From 01990534dfa5cdd2f42d76fa3def5abfaeb232dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 20/54] fix: AsyncSubject ignores values pushed after it was
 closed

---
 crates/rx_core_subject_async/src/async_subject.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index f38c232..5de222f 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -85,6 +85,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		let mut value = self.value.lock_ignore_poison();
 
 		let next_value = if let Some(current) = value.take() {
-- 
2.43.0


From 0efa92f8b9239f1c0f11f1f9e0d2e988f3f1ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 21/54] fix: AsyncSubject emits its result to late subscribers
 only if it completed

---
 crates/rx_core_subject_async/src/async_subject.rs     | 6 ++----
 crates/rx_core_subject_publish/src/publish_subject.rs | 6 ++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index 5de222f..0d118ea 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -137,12 +137,10 @@ where
 	{
 		let mut destination = destination.upgrade();
 
-		if self.subject.is_closed() {
+		if self.subject.is_completed() {
 			let value = self.value.lock_ignore_poison().clone();
 
-			if !self.subject.is_errored()
-				&& let Some(next) = value
-			{
+			if let Some(next) = value {
 				destination.next(next);
 			}
 			// The multicast returns pre-closed subscriptions, and unsubscribes
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 095eb93..47788af 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -93,6 +93,12 @@ where
 		let state = self.deferred_state.lock_ignore_poison();
 		state.observed_error.is_some()
 	}
+
+	#[inline]
+	pub fn is_completed(&self) -> bool {
+		let state = self.deferred_state.lock_ignore_poison();
+		state.observed_state.is_completed()
+	}
 }
 
 impl<In, InError> Observable for PublishSubject<In, InError>
-- 
2.43.0


From a318b93e6f6ca0971b4e22cd0bb3710ad2925811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 22/54] fix: PublishSubject does not hold its state lock while
 notifying a late subscriber

---
 .../src/publish_subject.rs                    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 47788af..07403e2 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -123,13 +123,20 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		{
+		// The subscriber must not be called while the state is locked, as it may
+		// call back into this subject.
+		let (observed_error, is_completed) = {
 			let state = self.deferred_state.lock_ignore_poison();
-			if let Some(error) = state.observed_error.clone() {
-				subscriber.error(error);
-			} else if state.observed_state.is_completed() {
-				subscriber.complete();
-			}
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		if let Some(error) = observed_error {
+			subscriber.error(error);
+		} else if is_completed {
+			subscriber.complete();
 		}
 
 		if self.is_closed() {
-- 
2.43.0


From 59af9b00f9b9629c756997a7bb2b87a0e6f44ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 23/54] fix: MulticastSubscription applies the signals its
 teardowns issued to the subject

---
 crates/rx_core_subject_publish/src/multicast.rs          | 8 ++++++++
 .../src/multicast_subscription.rs                        | 3 +++
 crates/rx_core_subject_publish/src/publish_subject.rs    | 9 +--------
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 039c7f1..7b56436 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -196,6 +196,14 @@ where
 		}
 	}
 
+	pub(crate) fn try_apply_deferred(&mut self) {
+		if self.deferred_state.lock_ignore_poison().is_dirty()
+			&& let Ok(mut subscribers) = self.subscribers.try_lock()
+		{
+			Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
+		}
+	}
+
 	pub(crate) fn try_add_subscriber(
 		&mut self,
 		subscriber: Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 4711b19..2e89ac9 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -90,6 +90,9 @@ where
 		}
 
 		self.subscriber.take();
+
+		// Teardowns may have called back into the subject
+		self.subscribers.try_apply_deferred();
 	}
 }
 
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 07403e2..8194b76 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -72,14 +72,7 @@ where
 	InError: Signal + Clone,
 {
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscribers) = self.subscribers.subscribers.try_lock()
-		{
-			SharedSubscribers::apply_notification_queue(
-				self.deferred_state.clone(),
-				&mut subscribers,
-			);
-		}
+		self.subscribers.try_apply_deferred();
 	}
 }
 
-- 
2.43.0


From 75ee6b876c1a6ae8bfec2e1c774ba7dc9c4cf1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:42 +0000
Subject: [PATCH 24/54] fix: AsyncSubject emits its result and completes in a
 single step

---
 .../src/async_subject.rs                      |  7 +---
 .../rx_core_subject_publish/src/multicast.rs  | 10 ++++-
 .../src/multicast_notification_errors.rs      |  7 +++-
 .../src/publish_subject.rs                    | 37 ++++++++++++-------
 4 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index 0d118ea..3a82551 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -108,12 +108,7 @@ where
 	#[inline]
 	fn complete(&mut self) {
 		let value = self.value.lock_ignore_poison().clone();
-
-		if let Some(value) = value {
-			self.subject.next(value);
-		}
-
-		self.subject.complete();
+		self.subject.complete_with(value);
 	}
 }
 
diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 7b56436..5b8d069 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -251,15 +251,21 @@ where
 		}
 	}
 
-	pub(crate) fn try_complete(&mut self) -> Result<(), MulticastCompleteLockError> {
+	pub(crate) fn try_complete(
+		&mut self,
+		last: Option<In>,
+	) -> Result<(), MulticastCompleteLockError<In>> {
 		match self.subscribers.try_lock() {
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
+				if let Some(last) = last {
+					subscribers.next(last);
+				}
 				subscribers.complete();
 				Ok(())
 			}
-			Err(_) => Err(MulticastCompleteLockError),
+			Err(_) => Err(MulticastCompleteLockError { last }),
 		}
 	}
 
diff --git a/crates/rx_core_subject_publish/src/multicast_notification_errors.rs b/crates/rx_core_subject_publish/src/multicast_notification_errors.rs
index c8e098a..e9799d0 100644
--- a/crates/rx_core_subject_publish/src/multicast_notification_errors.rs
+++ b/crates/rx_core_subject_publish/src/multicast_notification_errors.rs
@@ -33,7 +33,12 @@ where
 }
 
 #[derive(Debug)]
-pub(crate) struct MulticastCompleteLockError;
+pub(crate) struct MulticastCompleteLockError<In>
+where
+	In: Signal,
+{
+	pub(crate) last: Option<In>,
+}
 
 #[derive(Debug)]
 pub(crate) struct MulticastUnsubscribeLockError;
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 8194b76..5d4ba21 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -92,6 +92,28 @@ where
 		let state = self.deferred_state.lock_ignore_poison();
 		state.observed_state.is_completed()
 	}
+
+	/// Completes the subject, emitting one last value right before the
+	/// completion, as a single operation: Nothing a subscriber does in response
+	/// to the last value can get between the two.
+	pub fn complete_with(&mut self, last: Option<In>) {
+		if !self.is_closed() {
+			self.deferred_state
+				.lock_ignore_poison()
+				.observed_state
+				.complete();
+
+			if let Err(complete_error) = self.subscribers.try_complete(last) {
+				let mut state = self.deferred_state.lock_ignore_poison();
+				if let Some(last) = complete_error.last {
+					state.defer_notification(MulticastNotification::Next(last));
+				}
+				state.defer_notification(MulticastNotification::Complete);
+			}
+		}
+
+		self.try_apply_deferred();
+	}
 }
 
 impl<In, InError> Observable for PublishSubject<In, InError>
@@ -202,20 +224,7 @@ where
 	}
 
 	fn complete(&mut self) {
-		if !self.is_closed() {
-			self.deferred_state
-				.lock_ignore_poison()
-				.observed_state
-				.complete();
-
-			if let Err(_complete_error) = self.subscribers.try_complete() {
-				self.deferred_state
-					.lock_ignore_poison()
-					.defer_notification(MulticastNotification::Complete);
-			}
-		}
-
-		self.try_apply_deferred();
+		self.complete_with(None);
 	}
 }
 
-- 
2.43.0


From 419e6ea810c20d5371eac7656708783080a49a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:55 +0000
Subject: [PATCH 25/54] fix: connecting the source to a closed connector
 releases the source at once

---
 .../src/internal/connection_subscriber.rs                | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
index 8e02f5c..b79b4e2 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
@@ -27,12 +27,19 @@ where
 		on_error: Box<dyn FnOnce() + Send + Sync>,
 		on_unsubscribe: Box<dyn FnOnce() + Send + Sync>,
 	) -> Self {
+		let mut teardown = SubscriptionData::default();
+
+		// Nothing can be sent to a closed connector, the source must not be kept
+		if connector.is_closed() {
+			teardown.unsubscribe();
+		}
+
 		Self {
 			connector,
 			on_complete: Some(on_complete),
 			on_error: Some(on_error),
 			on_unsubscribe: Some(on_unsubscribe),
-			teardown: SubscriptionData::default(),
+			teardown,
 		}
 	}
 }
-- 
2.43.0


From 8743aafe025f5e83f7df1bfa99a46d5d21a72522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:55 +0000
Subject: [PATCH 26/54] fix: ConnectableObservable disconnects at zero
 subscribers even after an earlier connection ended

---
 .../src/internal/connector_state.rs                            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index b72b9cd..e51d76d 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -71,6 +71,9 @@ where
 	) -> ConnectionSubscription<Source, ConnectorProvider::Provided> {
 		let connector = self.get_connector().clone();
 
+		// A new connection did not complete or error yet, even if a previous one did
+		self.connection_state.lock_ignore_poison().reset();
+
 		let reset_connector_on_disconnect = self.options.reset_connector_on_disconnect;
 		let connection_on_complete = self.connection_state.clone();
 		let connection_on_error = self.connection_state.clone();
-- 
2.43.0


From 126b5047d1f1914885211a885a71b55001497456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:05 +0000
Subject: [PATCH 27/54] fix: ConnectableObservable disconnects when the last
 subscriber leaves while connecting

---
 .../src/internal/connection_state.rs             | 16 ++++++++++++++--
 .../src/internal/connector_state.rs              | 14 +++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/internal/connection_state.rs b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
index 32bb6dd..4421ba5 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
@@ -10,6 +10,9 @@ pub(crate) struct ConnectionState {
 	downstream_subscriber_count: usize,
 	has_errored: bool,
 	has_completed: bool,
+	/// The last subscriber left while the connection may still have been in the
+	/// making, and as such could not have been disconnected yet.
+	disconnect_requested: bool,
 	connection_options: ConnectionOptions,
 }
 
@@ -34,6 +37,7 @@ impl ConnectionState {
 			downstream_subscriber_count: 0,
 			has_completed: false,
 			has_errored: false,
+			disconnect_requested: false,
 		}
 	}
 
@@ -49,20 +53,28 @@ impl ConnectionState {
 
 	pub(crate) fn increment_subscriber_count(&mut self) {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_add(1);
+		self.disconnect_requested = false;
 	}
 
 	/// Returns true when disconnect_when_ref_count_zero is enabled and the
 	/// ref count has just dropped to zero.
 	pub(crate) fn decrement_subscriber_count(&mut self) -> bool {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_sub(1);
-		self.connection_options.disconnect_when_ref_count_zero
+		self.disconnect_requested = self.connection_options.disconnect_when_ref_count_zero
 			&& self.downstream_subscriber_count == 0
 			&& !self.has_errored
-			&& !self.has_completed
+			&& !self.has_completed;
+		self.disconnect_requested
+	}
+
+	#[inline]
+	pub(crate) fn is_disconnect_requested(&self) -> bool {
+		self.disconnect_requested
 	}
 
 	pub(crate) fn reset(&mut self) {
 		self.has_completed = false;
 		self.has_errored = false;
+		self.disconnect_requested = false;
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index e51d76d..f915839 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -129,7 +129,19 @@ where
 
 		active_connection.unwrap_or_else(move || {
 			let new_connection = self.create_connection();
-			self.register_connection(new_connection)
+			let connection_handle = self.register_connection(new_connection);
+
+			// The source may have emitted while it was being subscribed to, and every
+			// subscriber may have left because of that.
+			let disconnect_requested = self
+				.connection_state
+				.lock_ignore_poison()
+				.is_disconnect_requested();
+			if disconnect_requested {
+				self.disconnect();
+			}
+
+			connection_handle
 		})
 	}
 
-- 
2.43.0


From b61829854ec9b3da0c5418e5af2575270bdcc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:45 +0000
Subject: [PATCH 28/54] fix: ShareObservable does not connect for a subscriber
 that closed while subscribing

---
 crates/rx_core_operator_share/src/share_observable.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 96730b6..4678d02 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -104,7 +104,10 @@ where
 	{
 		let subscription = self.connectable.subscribe(destination);
 
-		self.connect();
+		// A subscriber that is already done must not keep the source connected
+		if !subscription.is_closed() {
+			self.connect();
+		}
 
 		subscription
 	}
-- 
2.43.0


From db192c727ad11f2d89fc7af8e1d3122d31ad3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 29/54] fix: clones of a ShareObservable agree on its
 connection

---
 .../src/share_observable.rs                   | 33 ++-----------------
 1 file changed, 3 insertions(+), 30 deletions(-)

diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 4678d02..472989e 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -21,14 +21,6 @@ where
 		Source,
 		ConnectorProvider,
 	>,
-	connection: Option<
-		ConnectionHandle<
-			<ConnectableObservable<
-				Source,
-			ConnectorProvider,
-			> as Connectable>::ConnectionSubscription,
-		>,
-	>,
 }
 
 impl<Source, ConnectorProvider> ShareObservable<Source, ConnectorProvider>
@@ -42,15 +34,11 @@ where
 	pub fn new(source: Source, options: ConnectableOptions<ConnectorProvider>) -> Self {
 		Self {
 			connectable: ConnectableObservable::new(source, options),
-			connection: None,
 		}
 	}
 
 	pub fn is_connected(&self) -> bool {
-		self.connection
-			.as_ref()
-			.map(|connection| !connection.is_closed())
-			.unwrap_or(false)
+		self.connectable.is_connected()
 	}
 
 	pub fn connect(
@@ -58,26 +46,11 @@ where
 	) -> ConnectionHandle<
 		<ConnectableObservable<Source, ConnectorProvider> as Connectable>::ConnectionSubscription,
 	> {
-		if let Some(connection) = self.connection.as_ref()
-			&& !connection.is_closed()
-		{
-			return connection.clone();
-		}
-
-		let connection = self.connectable.connect();
-		self.connection = Some(connection.clone());
-		connection
+		self.connectable.connect()
 	}
 
 	pub fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
+		self.connectable.disconnect()
 	}
 }
 
-- 
2.43.0


From cab299b73828d72cbaf8107694718669d43cb72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:30 +0000
Subject: [PATCH 30/54] fix: ConnectableObservable does not hold its connection
 lock while disconnecting

---
 .../src/connectable_observable.rs                   |  2 +-
 .../src/internal/connection.rs                      | 13 +++++++++----
 .../src/internal/connector_state.rs                 |  3 ++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 84ca99e..87df86d 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -136,7 +136,7 @@ where
 
 	#[inline]
 	fn disconnect(&mut self) -> bool {
-		self.connector.lock_ignore_poison().disconnect()
+		Connection::disconnect(&self.connection)
 	}
 
 	#[inline]
diff --git a/crates/rx_core_observable_connectable/src/internal/connection.rs b/crates/rx_core_observable_connectable/src/internal/connection.rs
index 18bfc65..b4b27e3 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection.rs
@@ -1,5 +1,7 @@
+use std::sync::{Arc, Mutex};
+
 use derive_where::derive_where;
-use rx_core_common::{SubscriptionLike, SubscriptionWithTeardown};
+use rx_core_common::{LockWithPoisonBehavior, SubscriptionLike, SubscriptionWithTeardown};
 
 use crate::observable::ConnectionHandle;
 
@@ -15,8 +17,12 @@ impl<Subscription> Connection<Subscription>
 where
 	Subscription: SubscriptionWithTeardown,
 {
-	pub(crate) fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
+	/// The lock on the connection is not held while unsubscribing, the teardowns
+	/// and whatever they signal may get back to this connection.
+	pub(crate) fn disconnect(this: &Arc<Mutex<Self>>) -> bool {
+		let connection = this.lock_ignore_poison().take_connection();
+
+		if let Some(mut connection) = connection
 			&& !connection.is_closed()
 		{
 			connection.unsubscribe();
@@ -38,7 +44,6 @@ where
 		&mut self,
 		connection: Subscription,
 	) -> ConnectionHandle<Subscription> {
-		self.disconnect();
 		let handle = ConnectionHandle::new(connection);
 		self.connection = Some(handle.clone());
 		handle
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index f915839..46c9bf1 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -117,6 +117,7 @@ where
 		&mut self,
 		connection: ConnectionSubscription<Source, ConnectorProvider::Provided>,
 	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
+		self.disconnect();
 		self.connection
 			.lock_clear_poison()
 			.register_connection(connection)
@@ -147,7 +148,7 @@ where
 
 	#[inline]
 	pub(crate) fn disconnect(&mut self) -> bool {
-		self.connection.lock_ignore_poison().disconnect()
+		Connection::disconnect(&self.connection)
 	}
 
 	pub(crate) fn reset(&mut self) {
-- 
2.43.0


From 69a9781b208d6564079f8dd7819a336059afad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:03 +0000
Subject: [PATCH 31/54] fix: ConnectableObservable does not hold its connector
 lock while subscribing to the source

---
 .../src/connectable_observable.rs             |  8 +-
 .../src/internal/connector_state.rs           | 74 ++++++++++---------
 2 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 87df86d..20340a6 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -83,8 +83,9 @@ where
 		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError>,
 	{
 		let mut subscription = {
-			let mut connector = self.connector.lock_ignore_poison();
-			connector.get_connector().subscribe(observer.upgrade())
+			// The subject may emit upon subscription, the lock must not be held then
+			let mut connector = self.connector.lock_ignore_poison().get_connector();
+			connector.subscribe(observer.upgrade())
 		};
 
 		if !subscription.is_closed() {
@@ -131,7 +132,7 @@ where
 	type ConnectionSubscription = ConnectionSubscription<Source, ConnectorProvider::Provided>;
 
 	fn connect(&mut self) -> ConnectionHandle<Self::ConnectionSubscription> {
-		self.connector.lock_ignore_poison().connect()
+		ConnectorState::connect(&self.connector)
 	}
 
 	#[inline]
@@ -146,6 +147,7 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
+		self.disconnect();
 		self.connector.lock_ignore_poison().reset();
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index 46c9bf1..2600e74 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -22,7 +22,7 @@ where
 {
 	/// Upon connection, the connector subject will subscribe to this source
 	/// observable
-	source: Source,
+	source: Arc<Mutex<Source>>,
 
 	/// Upon subscription this connector subject is what will be used as the
 	/// source
@@ -51,7 +51,7 @@ where
 		options: ConnectableOptions<ConnectorProvider>,
 	) -> Self {
 		Self {
-			source,
+			source: Arc::new(Mutex::new(source)),
 			connector: Arc::new(Mutex::new(None)),
 			connection,
 			connection_state,
@@ -66,9 +66,9 @@ where
 			.clone()
 	}
 
-	pub(crate) fn create_connection(
+	fn create_connection_subscriber(
 		&mut self,
-	) -> ConnectionSubscription<Source, ConnectorProvider::Provided> {
+	) -> ConnectionSubscriber<ConnectorProvider::Provided> {
 		let connector = self.get_connector().clone();
 
 		// A new connection did not complete or error yet, even if a previous one did
@@ -83,7 +83,7 @@ where
 		let reset_on_complete = self.options.reset_connector_on_complete;
 		let reset_on_error = self.options.reset_connector_on_error;
 
-		self.source.subscribe(ConnectionSubscriber::new(
+		ConnectionSubscriber::new(
 			connector.clone(),
 			Box::new(move || {
 				let mut connection_state = connection_on_complete.lock_ignore_poison();
@@ -110,49 +110,53 @@ where
 					// Attempting to unsubscribe the connector here will lead to a deadlock!
 				}
 			}),
-		))
-	}
-
-	pub(crate) fn register_connection(
-		&mut self,
-		connection: ConnectionSubscription<Source, ConnectorProvider::Provided>,
-	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
-		self.disconnect();
-		self.connection
-			.lock_clear_poison()
-			.register_connection(connection)
+		)
 	}
 
+	/// The lock on the connector state is not held while subscribing to the source,
+	/// as the subscribers of the connector may get back to it.
 	pub(crate) fn connect(
-		&mut self,
+		this: &Arc<Mutex<Self>>,
 	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
-		let active_connection = self.connection.lock_ignore_poison().get_active_connection();
+		let source = this.lock_ignore_poison().source.clone();
+		let mut source = source.lock_ignore_poison();
 
-		active_connection.unwrap_or_else(move || {
-			let new_connection = self.create_connection();
-			let connection_handle = self.register_connection(new_connection);
+		let (connection, connection_state, subscriber) = {
+			let mut state = this.lock_ignore_poison();
 
-			// The source may have emitted while it was being subscribed to, and every
-			// subscriber may have left because of that.
-			let disconnect_requested = self
-				.connection_state
+			let active_connection = state
+				.connection
 				.lock_ignore_poison()
-				.is_disconnect_requested();
-			if disconnect_requested {
-				self.disconnect();
+				.get_active_connection();
+			if let Some(active_connection) = active_connection {
+				return active_connection;
 			}
 
-			connection_handle
-		})
-	}
+			(
+				state.connection.clone(),
+				state.connection_state.clone(),
+				state.create_connection_subscriber(),
+			)
+		};
+
+		let new_connection = source.subscribe(subscriber);
+		let connection_handle = connection
+			.lock_clear_poison()
+			.register_connection(new_connection);
+
+		// The source may have emitted while it was being subscribed to, and every
+		// subscriber may have left because of that.
+		let disconnect_requested = connection_state
+			.lock_ignore_poison()
+			.is_disconnect_requested();
+		if disconnect_requested {
+			Connection::disconnect(&connection);
+		}
 
-	#[inline]
-	pub(crate) fn disconnect(&mut self) -> bool {
-		Connection::disconnect(&self.connection)
+		connection_handle
 	}
 
 	pub(crate) fn reset(&mut self) {
-		self.disconnect();
 		self.connector.lock_ignore_poison().take();
 	}
 }
-- 
2.43.0


From bb09fffdec3257ca4da00465625712fa8974d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 32/54] fix: ShareObservable does not connect again while it is
 connecting

---
 .../src/connectable_observable.rs                   |  5 +++++
 .../src/internal/connection_state.rs                | 13 +++++++++++++
 .../src/internal/connector_state.rs                 |  2 ++
 .../rx_core_operator_share/src/share_observable.rs  | 13 ++++++-------
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 20340a6..b7a8b44 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -61,6 +61,11 @@ where
 			connection_state,
 		}
 	}
+
+	/// Checks if the source observable is being subscribed to right now.
+	pub fn is_connecting(&self) -> bool {
+		self.connection_state.lock_ignore_poison().is_connecting()
+	}
 }
 
 impl<Source, ConnectorProvider> Observable for ConnectableObservable<Source, ConnectorProvider>
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_state.rs b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
index 4421ba5..3d49c84 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
@@ -13,6 +13,8 @@ pub(crate) struct ConnectionState {
 	/// The last subscriber left while the connection may still have been in the
 	/// making, and as such could not have been disconnected yet.
 	disconnect_requested: bool,
+	/// The source is being subscribed to.
+	connecting: bool,
 	connection_options: ConnectionOptions,
 }
 
@@ -38,9 +40,20 @@ impl ConnectionState {
 			has_completed: false,
 			has_errored: false,
 			disconnect_requested: false,
+			connecting: false,
 		}
 	}
 
+	#[inline]
+	pub(crate) fn set_connecting(&mut self, connecting: bool) {
+		self.connecting = connecting;
+	}
+
+	#[inline]
+	pub(crate) fn is_connecting(&self) -> bool {
+		self.connecting
+	}
+
 	#[inline]
 	pub(crate) fn errored(&mut self) {
 		self.has_errored = true;
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index 2600e74..f5ac380 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -139,10 +139,12 @@ where
 			)
 		};
 
+		connection_state.lock_ignore_poison().set_connecting(true);
 		let new_connection = source.subscribe(subscriber);
 		let connection_handle = connection
 			.lock_clear_poison()
 			.register_connection(new_connection);
+		connection_state.lock_ignore_poison().set_connecting(false);
 
 		// The source may have emitted while it was being subscribed to, and every
 		// subscriber may have left because of that.
diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 472989e..8463e41 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -14,13 +14,10 @@ where
 	Source: Observable,
 	Source::Out: Clone,
 	Source::OutError: Clone,
-		ConnectorProvider: 'static + Provider,
+	ConnectorProvider: 'static + Provider,
 	ConnectorProvider::Provided: SubjectLike<In = Source::Out, InError = Source::OutError> + Clone,
 {
-	connectable: ConnectableObservable<
-		Source,
-		ConnectorProvider,
-	>,
+	connectable: ConnectableObservable<Source, ConnectorProvider>,
 }
 
 impl<Source, ConnectorProvider> ShareObservable<Source, ConnectorProvider>
@@ -77,8 +74,10 @@ where
 	{
 		let subscription = self.connectable.subscribe(destination);
 
-		// A subscriber that is already done must not keep the source connected
-		if !subscription.is_closed() {
+		// A subscriber that is already done must not keep the source connected, and
+		// one that subscribed because of what the source emitted while connecting
+		// has nothing left to connect
+		if !subscription.is_closed() && !self.connectable.is_connecting() {
 			self.connect();
 		}
 
-- 
2.43.0


From 5701b64f50caf1c20ded53ac7798cdef9a21cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 33/54] fix: TakeSubscriber ignores terminal signals after it
 completed

---
 crates/rx_core_operator_take/src/take_subscriber.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index bd8a50d..8538c37 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -26,7 +26,7 @@ where
 			destination.complete();
 		}
 
-		let closed: SubscriptionClosedFlag = destination.is_closed().into();
+		let closed: SubscriptionClosedFlag = (count == 0 || destination.is_closed()).into();
 
 		Self {
 			destination,
@@ -53,12 +53,18 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
+		if self.is_closed() {
+			return;
+		}
 		self.destination.error(error);
 		self.closed.close();
 	}
 
 	#[inline]
 	fn complete(&mut self) {
+		if self.is_closed() {
+			return;
+		}
 		self.destination.complete();
 		self.closed.close();
 	}
-- 
2.43.0


From 077abcb4ea4faa2ba0567fdaf2c923fdabe7ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 34/54] fix: first, find, find_index and is_empty ignore
 signals after their result

---
 .../src/find_subscriber.rs                    |  4 ++-
 .../src/find_index_subscriber.rs              |  6 +++--
 .../src/first_subscriber.rs                   |  4 ++-
 .../src/is_empty_subscriber.rs                | 27 ++++++++++++-------
 4 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/crates/rx_core_operator_find/src/find_subscriber.rs b/crates/rx_core_operator_find/src/find_subscriber.rs
index 194b8bf..02e7612 100644
--- a/crates/rx_core_operator_find/src/find_subscriber.rs
+++ b/crates/rx_core_operator_find/src/find_subscriber.rs
@@ -59,7 +59,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FindOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination.error(FindOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
index 4a2fe6b..3f1a5cf 100644
--- a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
+++ b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
@@ -69,8 +69,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination
-			.error(FindIndexOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination
+				.error(FindIndexOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_first/src/first_subscriber.rs b/crates/rx_core_operator_first/src/first_subscriber.rs
index ecb7717..c47e412 100644
--- a/crates/rx_core_operator_first/src/first_subscriber.rs
+++ b/crates/rx_core_operator_first/src/first_subscriber.rs
@@ -61,7 +61,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FirstOperatorError::Upstream(error));
+		if !self.first_observed {
+			self.destination.error(FirstOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
index 337275f..1d2691b 100644
--- a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
+++ b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
@@ -15,6 +15,7 @@ where
 {
 	#[destination]
 	destination: Destination,
+	result_emitted: bool,
 	_phantom_data: PhantomInvariant<In>,
 }
 
@@ -26,9 +27,21 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			result_emitted: false,
 			_phantom_data: PhantomData,
 		}
 	}
+
+	#[inline]
+	fn emit_result(&mut self, is_empty: bool) {
+		if !self.result_emitted {
+			self.result_emitted = true;
+			self.destination.next(is_empty);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
+		}
+	}
 }
 
 impl<In, Destination> RxObserver for IsEmptySubscriber<In, Destination>
@@ -38,22 +51,18 @@ where
 {
 	#[inline]
 	fn next(&mut self, _next: Self::In) {
-		self.destination.next(false);
-		if !self.destination.is_closed() {
-			self.destination.complete();
-		}
+		self.emit_result(false);
 	}
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
+		if !self.result_emitted {
+			self.destination.error(error);
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.next(true);
-		if !self.destination.is_closed() {
-			self.destination.complete();
-		}
+		self.emit_result(true);
 	}
 }
-- 
2.43.0


From 767a3985d5583a554be5965abe6cbee1ad1a00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 35/54] fix: DematerializeSubscriber ignores signals after a
 terminal notification

---
 .../src/dematerialize_subscriber.rs               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
index 37b17de..0f553fd 100644
--- a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
+++ b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
@@ -12,6 +12,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// Downstream may stay open after a terminal notification.
+	terminated: bool,
 }
 
 impl<Destination> DematerializeSubscriber<Destination>
@@ -19,7 +21,10 @@ where
 	Destination: Subscriber,
 {
 	pub fn new(destination: Destination) -> Self {
-		Self { destination }
+		Self {
+			destination,
+			terminated: false,
+		}
 	}
 }
 
@@ -31,12 +36,13 @@ where
 	fn next(&mut self, notification: Self::In) {
 		match notification {
 			ObserverNotification::Next(next) => {
-				if !self.is_closed() {
+				if !self.terminated && !self.is_closed() {
 					self.destination.next(next)
 				}
 			}
 			ObserverNotification::Error(error) => {
-				if !self.is_closed() {
+				if !self.terminated && !self.is_closed() {
+					self.terminated = true;
 					self.destination.error(error);
 				}
 			}
@@ -50,7 +56,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if !self.is_closed() {
+		if !self.terminated && !self.is_closed() {
+			self.terminated = true;
 			self.destination.complete();
 		}
 	}
-- 
2.43.0


From 345b191b150e4d5be96c668a5ca09590d260dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 36/54] fix: flattening operators and catch don't cancel
 downstream after a terminal signal

---
 .../src/catch_subscriber.rs                   | 20 ++++++++----
 .../src/higher_order_subscriber_state.rs      | 14 ++++++++-
 .../src/concurrent_subscriber.rs              |  9 ++++--
 .../src/exhaust_subscriber.rs                 | 31 ++++++++++++++-----
 .../src/switch_subscriber.rs                  | 31 ++++++++++++++-----
 5 files changed, 81 insertions(+), 24 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index 57fa732..b58d230 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -94,12 +94,20 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if state_on_unsubscribe_clone
-						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
-					{
+					let (can_unsubscribe, downstream_finished) = {
+						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						(
+							state.can_downstream_unsubscribe(),
+							state.is_downstream_finished(),
+						)
+					};
+
+					if can_unsubscribe {
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
-						shared_destination_on_unsubscribe_clone.unsubscribe();
+						// Whatever downstream does after a terminal signal is not to be cancelled.
+						if !downstream_finished {
+							shared_destination_on_unsubscribe_clone.unsubscribe();
+						}
 					}
 				},
 			);
@@ -133,7 +141,7 @@ where
 				.upstream_completed_can_downstream()
 		{
 			self.shared_destination.complete();
-			self.unsubscribe();
+			self.outer_teardown.unsubscribe();
 		}
 	}
 }
diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
index 827bcac..6a70a6d 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
@@ -72,7 +72,13 @@ where
 		self.upstream_subscriber_state.complete();
 		self.upstream_subscriber_state.unsubscribe();
 
-		self.can_downstream_complete()
+		let downstream_can_complete = self.can_downstream_complete();
+
+		if downstream_can_complete {
+			self.downstream_subscriber_state.complete();
+		}
+
+		downstream_can_complete
 	}
 
 	pub(crate) fn inner_completed_can_downstream(&mut self) -> bool {
@@ -109,6 +115,12 @@ where
 		!was_downstream_already_unsubscribed
 	}
 
+	/// Downstream already received a terminal signal.
+	pub fn is_downstream_finished(&self) -> bool {
+		self.upstream_subscriber_state.is_errored()
+			|| self.downstream_subscriber_state.is_finished()
+	}
+
 	pub fn upstream_error(&mut self) {
 		self.state.on_upstream_error();
 		self.upstream_subscriber_state.error();
diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index e449f31..a6ef6d6 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -171,11 +171,14 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 			let mut state_lock = state.lock_ignore_poison();
 			let can_unsubscribe = state_lock.can_downstream_unsubscribe();
 			let upstream_errored = state_lock.upstream_subscriber_state.is_errored();
-			let downstream_errored = state_lock.downstream_subscriber_state.is_errored();
+			let downstream_finished = state_lock.is_downstream_finished();
 			drop(state_lock);
 
-			if can_unsubscribe && !upstream_errored && !downstream_errored {
-				shared_destination_on_unsubscribe.unsubscribe();
+			if can_unsubscribe && !upstream_errored {
+				// Whatever downstream does after a terminal signal is not to be cancelled.
+				if !downstream_finished {
+					shared_destination_on_unsubscribe.unsubscribe();
+				}
 				outer_teardown_on_unsubscribe.unsubscribe();
 			}
 		},
diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 8cf9688..956e04c 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -45,6 +45,15 @@ where
 			_phantom_data: PhantomData,
 		}
 	}
+
+	/// Closes everything upstream of the destination, which received a terminal
+	/// signal and may still be active.
+	fn finish(&mut self) {
+		self.outer_teardown.unsubscribe();
+		if let Some(mut inner_subscription) = self.inner_subscription.take() {
+			inner_subscription.unsubscribe();
+		}
+	}
 }
 
 impl<InnerObservable, Destination> RxObserver for ExhaustSubscriber<InnerObservable, Destination>
@@ -76,12 +85,20 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if state_on_unsubscribe_clone
-						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
-					{
+					let (can_unsubscribe, downstream_finished) = {
+						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						(
+							state.can_downstream_unsubscribe(),
+							state.is_downstream_finished(),
+						)
+					};
+
+					if can_unsubscribe {
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
-						shared_destination_on_unsubscribe.unsubscribe();
+						// Whatever downstream does after a terminal signal is not to be cancelled.
+						if !downstream_finished {
+							shared_destination_on_unsubscribe.unsubscribe();
+						}
 					}
 				},
 			));
@@ -98,7 +115,7 @@ where
 			self.state.lock_ignore_poison().upstream_error();
 
 			self.shared_destination.error(error);
-			self.unsubscribe();
+			self.finish();
 		}
 	}
 
@@ -110,7 +127,7 @@ where
 				.upstream_completed_can_downstream()
 		{
 			self.shared_destination.complete();
-			self.unsubscribe();
+			self.finish();
 		}
 	}
 }
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index 18de9a3..2e1f37e 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -44,6 +44,15 @@ where
 			_phantom_data: PhantomData,
 		}
 	}
+
+	/// Closes everything upstream of the destination, which received a terminal
+	/// signal and may still be active.
+	fn finish(&mut self) {
+		self.outer_teardown.unsubscribe();
+		if let Some(mut inner_subscription) = self.inner_subscription.take() {
+			inner_subscription.unsubscribe();
+		}
+	}
 }
 
 impl<InnerObservable, Destination> RxObserver for SwitchSubscriber<InnerObservable, Destination>
@@ -73,12 +82,20 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if state_on_unsubscribe_clone
-						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
-					{
+					let (can_unsubscribe, downstream_finished) = {
+						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						(
+							state.can_downstream_unsubscribe(),
+							state.is_downstream_finished(),
+						)
+					};
+
+					if can_unsubscribe {
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
-						shared_destination_on_unsubscribe_clone.unsubscribe();
+						// Whatever downstream does after a terminal signal is not to be cancelled.
+						if !downstream_finished {
+							shared_destination_on_unsubscribe_clone.unsubscribe();
+						}
 					}
 				},
 			));
@@ -99,7 +116,7 @@ where
 			self.state.lock_ignore_poison().upstream_error();
 
 			self.shared_destination.error(error);
-			self.unsubscribe();
+			self.finish();
 		}
 	}
 
@@ -111,7 +128,7 @@ where
 				.upstream_completed_can_downstream()
 		{
 			self.shared_destination.complete();
-			self.unsubscribe();
+			self.finish();
 		}
 	}
 }
-- 
2.43.0


From eff2fa58fe9d5f717a6c90a540d7a67759c58a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:10 +0000
Subject: [PATCH 37/54] fix: switch, exhaust and catch release the active inner
 subscription when downstream closes

---
 .../src/catch_subscriber.rs                   | 41 +++++++++++------
 .../src/exhaust_subscriber.rs                 | 46 +++++++++++--------
 .../src/switch_subscriber.rs                  | 45 ++++++++++--------
 3 files changed, 80 insertions(+), 52 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index b58d230..a041e55 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -4,7 +4,7 @@ use std::sync::{Arc, Mutex};
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
@@ -24,7 +24,7 @@ where
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
 	error_mapper: Option<ErrorMapper>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<(In, InError)>,
 }
@@ -39,15 +39,32 @@ where
 	Destination: 'static + Subscriber<In = In, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, error_mapper: ErrorMapper) -> Self {
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let mut outer_teardown = SharedSubscription::default();
+		let inner_subscription = Arc::new(Mutex::new(None::<SubscriptionData>));
+
+		let inner_subscription_on_unsubscribe = inner_subscription.clone();
+		outer_teardown.add_fn(move || Self::release(&inner_subscription_on_unsubscribe));
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
-			shared_destination: SharedSubscriber::new(destination),
+			shared_destination,
 			error_mapper: Some(error_mapper),
-			inner_subscription: None,
-			outer_teardown: SharedSubscription::default(),
+			inner_subscription,
+			outer_teardown,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
 			_phantom_data: PhantomData,
 		}
 	}
+
+	/// Closes the active inner subscription, if there is one.
+	fn release(inner_subscription: &Arc<Mutex<Option<SubscriptionData>>>) {
+		let inner_subscription = inner_subscription.lock_ignore_poison().take();
+
+		if let Some(mut inner_subscription) = inner_subscription {
+			inner_subscription.unsubscribe();
+		}
+	}
 }
 
 impl<In, InError, InnerObservable, ErrorMapper, Destination> RxObserver
@@ -78,9 +95,7 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
-				inner_subscription.unsubscribe();
-			}
+			Self::release(&self.inner_subscription);
 
 			let state_on_unsubscribe_clone = self.state.clone();
 			let mut outer_teardown_on_unsubscribe_clone = self.outer_teardown.clone();
@@ -122,10 +137,14 @@ where
 			let subscription = next_observable.subscribe(higher_order_subscriber);
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
+				*self.inner_subscription.lock_ignore_poison() =
 					Some(SubscriptionData::new_with_teardown(subscription.into()));
 			}
 
+			if self.outer_teardown.is_closed() {
+				Self::release(&self.inner_subscription);
+			}
+
 			if self.shared_destination.is_closed() {
 				self.unsubscribe();
 			}
@@ -180,10 +199,6 @@ where
 
 	fn unsubscribe(&mut self) {
 		if !self.outer_teardown.is_closed() {
-			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-				subscription_handle.unsubscribe();
-			};
-
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 		}
diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 956e04c..aef0e5d 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -6,7 +6,7 @@ use std::{
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
@@ -26,7 +26,7 @@ where
 	outer_teardown: SharedSubscription,
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
 
@@ -37,20 +37,28 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination) -> Self {
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let mut outer_teardown = SharedSubscription::default();
+		let inner_subscription = Arc::new(Mutex::new(None::<SubscriptionData>));
+
+		let inner_subscription_on_unsubscribe = inner_subscription.clone();
+		outer_teardown.add_fn(move || Self::release(&inner_subscription_on_unsubscribe));
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
-			outer_teardown: SharedSubscription::default(),
-			shared_destination: SharedSubscriber::new(destination),
+			outer_teardown,
+			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
-			inner_subscription: None,
+			inner_subscription,
 			_phantom_data: PhantomData,
 		}
 	}
 
-	/// Closes everything upstream of the destination, which received a terminal
-	/// signal and may still be active.
-	fn finish(&mut self) {
-		self.outer_teardown.unsubscribe();
-		if let Some(mut inner_subscription) = self.inner_subscription.take() {
+	/// Closes the active inner subscription, if there is one.
+	fn release(inner_subscription: &Arc<Mutex<Option<SubscriptionData>>>) {
+		let inner_subscription = inner_subscription.lock_ignore_poison().take();
+
+		if let Some(mut inner_subscription) = inner_subscription {
 			inner_subscription.unsubscribe();
 		}
 	}
@@ -70,9 +78,7 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
-				inner_subscription.unsubscribe();
-			}
+			Self::release(&self.inner_subscription);
 
 			let state_on_unsubscribe_clone = self.state.clone();
 			let mut outer_teardown_on_unsubscribe_clone = self.outer_teardown.clone();
@@ -104,9 +110,13 @@ where
 			));
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
+				*self.inner_subscription.lock_ignore_poison() =
 					Some(SubscriptionData::new_with_teardown(subscription.into()));
 			}
+
+			if self.outer_teardown.is_closed() {
+				Self::release(&self.inner_subscription);
+			}
 		}
 	}
 
@@ -115,7 +125,7 @@ where
 			self.state.lock_ignore_poison().upstream_error();
 
 			self.shared_destination.error(error);
-			self.finish();
+			self.outer_teardown.unsubscribe();
 		}
 	}
 
@@ -127,7 +137,7 @@ where
 				.upstream_completed_can_downstream()
 		{
 			self.shared_destination.complete();
-			self.finish();
+			self.outer_teardown.unsubscribe();
 		}
 	}
 }
@@ -146,10 +156,6 @@ where
 
 	fn unsubscribe(&mut self) {
 		if !self.outer_teardown.is_closed() {
-			if let Some(subscription_handle) = &mut self.inner_subscription {
-				subscription_handle.unsubscribe();
-			};
-
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 		}
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index 2e1f37e..5111ffa 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -8,7 +8,7 @@ use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
 
@@ -24,7 +24,7 @@ where
 {
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -36,20 +36,28 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination) -> Self {
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let mut outer_teardown = SharedSubscription::default();
+		let inner_subscription = Arc::new(Mutex::new(None::<SubscriptionData>));
+
+		let inner_subscription_on_unsubscribe = inner_subscription.clone();
+		outer_teardown.add_fn(move || Self::release(&inner_subscription_on_unsubscribe));
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
-			outer_teardown: SharedSubscription::default(),
-			shared_destination: SharedSubscriber::new(destination),
+			outer_teardown,
+			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
-			inner_subscription: None,
+			inner_subscription,
 			_phantom_data: PhantomData,
 		}
 	}
 
-	/// Closes everything upstream of the destination, which received a terminal
-	/// signal and may still be active.
-	fn finish(&mut self) {
-		self.outer_teardown.unsubscribe();
-		if let Some(mut inner_subscription) = self.inner_subscription.take() {
+	/// Closes the active inner subscription, if there is one.
+	fn release(inner_subscription: &Arc<Mutex<Option<SubscriptionData>>>) {
+		let inner_subscription = inner_subscription.lock_ignore_poison().take();
+
+		if let Some(mut inner_subscription) = inner_subscription {
 			inner_subscription.unsubscribe();
 		}
 	}
@@ -68,9 +76,7 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
-				inner_subscription.unsubscribe();
-			}
+			Self::release(&self.inner_subscription);
 
 			let state_on_unsubscribe_clone = self.state.clone();
 			let mut outer_teardown_on_unsubscribe_clone = self.outer_teardown.clone();
@@ -101,10 +107,14 @@ where
 			));
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
+				*self.inner_subscription.lock_ignore_poison() =
 					Some(SubscriptionData::new_with_teardown(subscription.into()));
 			}
 
+			if self.outer_teardown.is_closed() {
+				Self::release(&self.inner_subscription);
+			}
+
 			if self.shared_destination.is_closed() {
 				self.unsubscribe();
 			}
@@ -116,7 +126,7 @@ where
 			self.state.lock_ignore_poison().upstream_error();
 
 			self.shared_destination.error(error);
-			self.finish();
+			self.outer_teardown.unsubscribe();
 		}
 	}
 
@@ -128,7 +138,7 @@ where
 				.upstream_completed_can_downstream()
 		{
 			self.shared_destination.complete();
-			self.finish();
+			self.outer_teardown.unsubscribe();
 		}
 	}
 }
@@ -165,9 +175,6 @@ where
 		if !self.outer_teardown.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
-			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-				subscription_handle.unsubscribe();
-			};
 		}
 	}
 }
-- 
2.43.0


From 83d1e450ca07e369617151c443a48d7a26bca2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:24 +0000
Subject: [PATCH 38/54] fix: combine_latest, combine_changes, zip and join
 don't cancel downstream after a terminal signal

---
 .../src/combine_changes_subscriber.rs         | 19 ++++++++++++++++---
 .../src/combine_latest_subscriber.rs          | 17 +++++++++++++++--
 .../src/join_subscriber.rs                    | 17 +++++++++++++++--
 .../src/zip_subscriber.rs                     | 18 ++++++++++++++++--
 4 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
index 3f69e18..be10dbb 100644
--- a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
+++ b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
@@ -36,6 +36,8 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// Downstream was already finished, the destination itself may still be active.
+	finished: bool,
 }
 
 impl<Destination, O1, O2> CombineChangesSubscriber<Destination, O1, O2>
@@ -53,6 +55,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -64,16 +67,21 @@ where
 	}
 
 	fn try_complete(&mut self) {
-		if !self.destination.is_closed()
+		if !self.finished
+			&& !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed() && (self.o1_state.is_closed() && self.o2_state.is_closed())
+		if !self.finished
+			&& !self.destination.is_closed()
+			&& (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -90,6 +98,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		let mut o1_just_nexted = false;
 		let mut o2_just_nexted = false;
 		match next {
@@ -104,6 +116,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
@@ -111,7 +124,7 @@ where
 		self.try_complete();
 		self.try_unsubscribe();
 
-		if !self.is_closed() && (o1_just_nexted || o2_just_nexted) {
+		if !self.finished && !self.is_closed() && (o1_just_nexted || o2_just_nexted) {
 			let o1_change = self
 				.o1_state
 				.get_value()
diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
index 6b0d740..432b95b 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
@@ -34,6 +34,8 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// Downstream was already finished, the destination itself may still be active.
+	finished: bool,
 }
 
 impl<Destination, O1, O2> CombineLatestSubscriber<Destination, O1, O2>
@@ -51,6 +53,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -69,21 +72,25 @@ where
 	}
 
 	fn try_complete(&mut self) {
-		if !self.destination.is_closed()
+		if !self.finished
+			&& !self.destination.is_closed()
 			&& ((self.o1_state.is_completed() && self.o2_state.is_completed())
 				|| (self.o1_state.is_primed() && self.o2_state.is_completed_but_not_primed())
 				|| (self.o1_state.is_completed_but_not_primed() && self.o2_state.is_primed()))
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed()
+		if !self.finished
+			&& !self.destination.is_closed()
 			&& ((self.o1_state.is_closed() && self.o2_state.is_closed())
 				|| self.o1_state.is_closed_but_not_primed()
 				|| self.o2_state.is_closed_but_not_primed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -100,6 +107,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		let either_was_next = match next {
 			EitherObservableNotification2::O1(notification) => {
 				let is_next = matches!(notification, SubscriberNotification::Next(_));
@@ -114,6 +125,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
@@ -122,6 +134,7 @@ where
 		self.try_unsubscribe();
 
 		if either_was_next
+			&& !self.finished
 			&& !self.is_closed()
 			&& let Some(next) = self.get_next()
 		{
diff --git a/crates/rx_core_observable_join/src/join_subscriber.rs b/crates/rx_core_observable_join/src/join_subscriber.rs
index 1db2db0..1a9ee84 100644
--- a/crates/rx_core_observable_join/src/join_subscriber.rs
+++ b/crates/rx_core_observable_join/src/join_subscriber.rs
@@ -36,6 +36,8 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// Downstream was already finished, the destination itself may still be active.
+	finished: bool,
 }
 
 impl<Destination, O1, O2> JoinSubscriber<Destination, O1, O2>
@@ -53,6 +55,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -71,20 +74,25 @@ where
 	}
 
 	fn try_complete(&mut self) {
-		if !self.destination.is_closed()
+		if !self.finished
+			&& !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
 			if let Some(next) = self.get_next() {
 				self.destination.next(next);
 			}
 
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed() && (self.o1_state.is_closed() && self.o2_state.is_closed())
+		if !self.finished
+			&& !self.destination.is_closed()
+			&& (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -101,6 +109,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		match next {
 			EitherObservableNotification2::O1(notification) => {
 				if !self
@@ -121,6 +133,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index 6f96c47..97b9f8f 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -36,6 +36,8 @@ where
 	destination: Destination,
 	o1_queue: NotificationQueue<O1::Out, O1::OutError>,
 	o2_queue: NotificationQueue<O2::Out, O2::OutError>,
+	/// Downstream was already finished, the destination itself may still be active.
+	finished: bool,
 }
 
 impl<Destination, O1, O2> ZipSubscriber<Destination, O1, O2>
@@ -53,6 +55,7 @@ where
 			o1_queue: NotificationQueue::new(options.clone()),
 			o2_queue: NotificationQueue::new(options),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -77,16 +80,21 @@ where
 	/// A queue only reports its completion once its values are used up, no further
 	/// pairs are possible then.
 	fn try_complete(&mut self) {
-		if !self.destination.is_closed()
+		if !self.finished
+			&& !self.destination.is_closed()
 			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed() && (self.o1_queue.is_closed() || self.o2_queue.is_closed())
+		if !self.finished
+			&& !self.destination.is_closed()
+			&& (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -103,6 +111,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		let either_was_next = match next {
 			EitherObservableNotification2::O1(notification) => {
 				let is_next = matches!(notification, SubscriberNotification::Next(_));
@@ -117,11 +129,13 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
 
 		if either_was_next
+			&& !self.finished
 			&& !self.is_closed()
 			&& let Some(next) = self.get_next()
 		{
-- 
2.43.0


From b57101fb4e15141a25094aaf7ba6f427e503de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:51 +0000
Subject: [PATCH 39/54] fix: retry doesn't cancel downstream after a terminal
 signal, and is released with it

---
 .../src/retry_observable.rs                   |  4 +--
 .../src/retry_subscriber.rs                   | 27 ++++++++++++++-----
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index d03877c..7c64f89 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -55,6 +55,7 @@ where
 	{
 		let mut shared_destination = SharedSubscriber::new(destination.upgrade());
 		let mut outer_subscription = SharedSubscription::default();
+		shared_destination.add(outer_subscription.clone());
 
 		let mut immediate_retries = 0;
 
@@ -90,8 +91,6 @@ where
 					last_subscription.unsubscribe();
 				}
 				continue;
-			} else if shared_destination.is_closed() {
-				break;
 			} else {
 				outer_subscription.add(last_subscription);
 				break;
@@ -101,7 +100,6 @@ where
 		// Only present when the last allowed attempt errored too.
 		if let Some(error) = caught_error.lock_ignore_poison().take() {
 			shared_destination.error(error);
-			shared_destination.unsubscribe();
 			outer_subscription.unsubscribe();
 		}
 
diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index 1192f10..ef892fe 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -21,6 +21,8 @@ where
 	retries: usize,
 	max_retries: usize,
 	finished_with: Option<ObserverTerminalNotification<Source::OutError>>,
+	/// Downstream was already finished, the destination itself may still be active.
+	finished: bool,
 	#[destination]
 	destination: SharedSubscriber<Destination>,
 	outer_subscription: SharedSubscription,
@@ -47,6 +49,7 @@ where
 			destination,
 			outer_subscription,
 			finished_with: None,
+			finished: false,
 			max_retries,
 			retries,
 			caught_error,
@@ -67,14 +70,26 @@ where
 	}
 
 	fn finish(&mut self) {
-		match self.finished_with.take() {
-			Some(ObserverTerminalNotification::Error(error)) => self.destination.error(error),
-			Some(ObserverTerminalNotification::Complete) => self.destination.complete(),
-			None => {}
+		if self.finished {
+			return;
 		}
 
-		self.outer_subscription.unsubscribe();
-		self.destination.unsubscribe();
+		self.finished = true;
+
+		match self.finished_with.take() {
+			Some(ObserverTerminalNotification::Error(error)) => {
+				self.destination.error(error);
+				self.outer_subscription.unsubscribe();
+			}
+			Some(ObserverTerminalNotification::Complete) => {
+				self.destination.complete();
+				self.outer_subscription.unsubscribe();
+			}
+			None => {
+				self.outer_subscription.unsubscribe();
+				self.destination.unsubscribe();
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 67e9c45f82999d6b8f2e9d00a0218ddc67ddb8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:08 +0000
Subject: [PATCH 40/54] fix: observe_on drops pending values after an error

---
 .../src/observe_on_subscriber.rs                         | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 8d9ce80..948487f 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -23,6 +23,7 @@ where
 	destination: SharedSubscriber<Destination>,
 	scheduler: SchedulerHandle<S>,
 	cancellation_id: WorkCancellationId,
+	upstream_errored: Arc<AtomicBool>,
 	upstream_completed: Arc<AtomicBool>,
 	upstream_unsubscribed: Arc<AtomicBool>,
 	scheduled_work_counter: Arc<AtomicUsize>,
@@ -43,6 +44,7 @@ where
 			destination: SharedSubscriber::new(destination),
 			scheduler,
 			cancellation_id,
+			upstream_errored: Arc::new(AtomicBool::new(false)),
 			upstream_completed: Arc::new(AtomicBool::new(false)),
 			upstream_unsubscribed: Arc::new(AtomicBool::new(false)),
 			scheduled_work_counter: Arc::new(AtomicUsize::new(0)),
@@ -61,10 +63,16 @@ where
 
 		self.scheduled_work_counter.fetch_add(1, Ordering::Relaxed);
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
+		let upstream_errored = self.upstream_errored.clone();
 		let upstream_completed = self.upstream_completed.clone();
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 		self.scheduler.lock().schedule_immediate_work(
 			move |_, _| {
+				// Nothing may follow an error.
+				if upstream_errored.load(Ordering::Relaxed) {
+					return;
+				}
+
 				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
@@ -96,6 +104,7 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
+		self.upstream_errored.store(true, Ordering::Relaxed);
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 		self.destination.error(error);
 	}
-- 
2.43.0


From d0d27cd67fad4dad8b587d75cf4c05556841b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:08 +0000
Subject: [PATCH 41/54] fix: fallback_when_silent doesn't cancel downstream
 after a terminal signal

---
 .../src/fallback_when_silent_subscriber.rs    | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
index 55f9cde..62d51d7 100644
--- a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
+++ b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
@@ -1,5 +1,8 @@
 use core::marker::PhantomData;
-use std::sync::{Arc, Mutex};
+use std::sync::{
+	Arc, Mutex,
+	atomic::{AtomicBool, Ordering},
+};
 
 use rx_core_common::{
 	PhantomInvariant, RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension,
@@ -32,6 +35,8 @@ where
 	state: Arc<Mutex<FallbackWhenSilentSubscriberState<In>>>,
 	scheduler_handle: SchedulerHandle<S>,
 	cancellation_id: WorkCancellationId,
+	/// Downstream was already finished, the destination itself may still be active.
+	finished: Arc<AtomicBool>,
 	_phantom_data: PhantomInvariant<(In, InError, Fallback)>,
 }
 
@@ -64,10 +69,12 @@ where
 
 		let shared_state_clone = state.clone();
 		let mut shared_destination_clone = shared_destination.clone();
+		let finished = Arc::new(AtomicBool::new(false));
+		let finished_clone = finished.clone();
 		let mut index = 0;
 		scheduler.schedule_continuous_work(
 			move |tick, context| {
-				if shared_destination_clone.is_closed() {
+				if finished_clone.load(Ordering::Relaxed) || shared_destination_clone.is_closed() {
 					return WorkResult::Done;
 				}
 				let observed_next = {
@@ -78,7 +85,7 @@ where
 				let next = observed_next.unwrap_or_else(|| fallback(tick, context, index));
 				index += 1;
 				shared_destination_clone.next(next);
-				if shared_destination_clone.is_closed() {
+				if finished_clone.load(Ordering::Relaxed) || shared_destination_clone.is_closed() {
 					return WorkResult::Done;
 				}
 
@@ -92,6 +99,7 @@ where
 			state,
 			scheduler_handle: scheduler_clone,
 			cancellation_id,
+			finished,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -120,14 +128,18 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.shared_destination.error(error);
-		self.unsubscribe();
+		if !self.finished.swap(true, Ordering::Relaxed) {
+			self.shared_destination.error(error);
+			self.scheduler_handle.lock().cancel(self.cancellation_id);
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.shared_destination.complete();
-		self.unsubscribe();
+		if !self.finished.swap(true, Ordering::Relaxed) {
+			self.shared_destination.complete();
+			self.scheduler_handle.lock().cancel(self.cancellation_id);
+		}
 	}
 }
 
@@ -145,11 +157,13 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.shared_destination.is_closed()
+		self.finished.load(Ordering::Relaxed) || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		self.scheduler_handle.lock().cancel(self.cancellation_id);
-		self.shared_destination.unsubscribe();
+		if !self.finished.swap(true, Ordering::Relaxed) {
+			self.scheduler_handle.lock().cancel(self.cancellation_id);
+			self.shared_destination.unsubscribe();
+		}
 	}
 }
-- 
2.43.0


From 06ceac298f58db2918d892e781b6fed1ec46c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:37 +0000
Subject: [PATCH 42/54] fix: the concurrent flattening operators stop when
 they're unsubscribed while downstream closes later

---
 .../src/concurrent_subscriber.rs                                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index a6ef6d6..237d30f 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -262,6 +262,8 @@ where
 	fn unsubscribe(&mut self) {
 		if !self.is_closed() {
 			self.shared_destination.unsubscribe();
+			// Downstream may close only later on, nothing can reach it anymore.
+			self.outer_teardown.unsubscribe();
 		}
 	}
 }
-- 
2.43.0


From c44d7170cce579f51e6bb4baae8f002584cd8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:49 +0000
Subject: [PATCH 43/54] fix: complete an event observable's subscription when
 its entity is already gone

---
 .../src/event_subscription.rs                 | 43 ++++++++++++-------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/crates/rx_bevy_observable_event/src/event_subscription.rs b/crates/rx_bevy_observable_event/src/event_subscription.rs
index d8c3389..0b25064 100644
--- a/crates/rx_bevy_observable_event/src/event_subscription.rs
+++ b/crates/rx_bevy_observable_event/src/event_subscription.rs
@@ -1,4 +1,4 @@
-use bevy_ecs::{entity::Entity, event::EntityEvent, name::Name, observer::Observer};
+use bevy_ecs::{entity::Entity, event::EntityEvent, name::Name, observer::Observer, world::World};
 use disqualified::ShortName;
 use rx_bevy_common::{
 	RxBevyScheduler, RxBevySchedulerDespawnEntityExtension, SubscriptionSatellite,
@@ -47,25 +47,36 @@ where
 			scheduler_lock.schedule_immediate_work(
 				move |_, context| {
 					let mut commands = context.deferred_world.commands();
-					let observer_satellite_entity = commands.spawn((
-						Name::new(format!("Event Observer of {}", ShortName::of::<Self>())),
-						Observer::new(create_event_forwarder_observer_for_destination(
-							shared_destination_clone,
-						))
-						.with_entity(observed_event_source_entity)
-						.with_error_handler(bevy_ecs::error::error),
-						SubscriptionSatellite::new_with_teardown(
-							observed_event_source_entity,
-							Teardown::new(move || {
-								shared_destination_despawn_clone.complete();
-							}),
-						),
-					));
+					let observer_satellite_entity = commands.spawn_empty().id();
+					commands.queue(move |world: &mut World| {
+						// The observed entity may be gone by now, there's nothing to observe then
+						if world.get_entity(observed_event_source_entity).is_err() {
+							shared_destination_despawn_clone.complete();
+							return;
+						}
+
+						if let Ok(mut satellite) = world.get_entity_mut(observer_satellite_entity) {
+							satellite.insert((
+								Name::new(format!("Event Observer of {}", ShortName::of::<Self>())),
+								Observer::new(create_event_forwarder_observer_for_destination(
+									shared_destination_clone,
+								))
+								.with_entity(observed_event_source_entity)
+								.with_error_handler(bevy_ecs::error::error),
+								SubscriptionSatellite::new_with_teardown(
+									observed_event_source_entity,
+									Teardown::new(move || {
+										shared_destination_despawn_clone.complete();
+									}),
+								),
+							));
+						}
+					});
 
 					scheduler_schedule_clone
 						.lock()
 						.schedule_invoked_despawn_entity(
-							observer_satellite_entity.id(),
+							observer_satellite_entity,
 							despawn_event_observer_invoke_id,
 						);
 				},
-- 
2.43.0


From c021abac0a8b74cb0d83013cbeadf7e340649f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:38 +0000
Subject: [PATCH 44/54] fix: don't retry a subscribe whose subscription entity
 was despawned

---
 .../src/observable/command_subscribe.rs            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/rx_bevy_common/src/observable/command_subscribe.rs b/crates/rx_bevy_common/src/observable/command_subscribe.rs
index f60bc28..8112eb9 100644
--- a/crates/rx_bevy_common/src/observable/command_subscribe.rs
+++ b/crates/rx_bevy_common/src/observable/command_subscribe.rs
@@ -8,7 +8,7 @@ use bevy_ecs::{
 use bevy_log::debug;
 use derive_where::derive_where;
 use disqualified::ShortName;
-use rx_core_common::{PhantomInvariant, Signal, UpgradeableObserver};
+use rx_core_common::{PhantomInvariant, Signal, SubscriptionLike, UpgradeableObserver};
 use thiserror::Error;
 
 use crate::{ErasedSubscribeObservers, Subscribe, SubscribesToRetry};
@@ -77,7 +77,17 @@ where
 	Out: Signal,
 	OutError: Signal,
 {
-	fn apply(self, world: &mut bevy_ecs::world::World) -> Result<(), BevyError> {
+	fn apply(mut self, world: &mut bevy_ecs::world::World) -> Result<(), BevyError> {
+		// The reserved subscription entity may have been despawned while this
+		// command was waiting to be retried, the subscription would have no owner.
+		if world.get_entity(self.event.subscription_entity).is_err() {
+			if let Some(mut destination) = self.event.try_consume_destination() {
+				destination.unsubscribe();
+			}
+
+			return Ok(());
+		}
+
 		let observable_entity = self.event.observable_entity;
 
 		let has_matching_subscribe_observer = world
-- 
2.43.0


From 4c9ad57967e5813741f7ac8168cd6b1deb7ca8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:38 +0000
Subject: [PATCH 45/54] fix: retry pending subscribes before cleaning up
 unfinished subscriptions

---
 crates/rx_bevy_common/src/scheduler/rx_plugin.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rx_bevy_common/src/scheduler/rx_plugin.rs b/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
index e28b69b..4e95bd7 100644
--- a/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
+++ b/crates/rx_bevy_common/src/scheduler/rx_plugin.rs
@@ -19,7 +19,12 @@ pub struct RxPlugin;
 
 impl Plugin for RxPlugin {
 	fn build(&self, app: &mut App) {
-		app.add_systems(Last, clean_unfinished_subscriptions);
+		// The subscriptions to retry are still unfinished, this is their last
+		// chance in this frame before they are cleaned up.
+		app.add_systems(
+			Last,
+			(execute_pending_retries, clean_unfinished_subscriptions).chain(),
+		);
 
 		// Used to despawn unsubscribed entities
 		app.add_plugins(RxSchedulerPlugin::<Last, Virtual>::default());
-- 
2.43.0


From 9d79332574dc137b0974dba92d86f49f73956883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:10 +0000
Subject: [PATCH 46/54] fix: don't leave notifications pending that another
 thread deferred while the queue was being applied

---
 crates/rx_core_subject_publish/src/multicast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 5b8d069..c296519 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -197,7 +197,9 @@ where
 	}
 
 	pub(crate) fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// Another thread can still defer a notification between the moment the
+		// queue was found empty and the subscribers were released.
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscribers) = self.subscribers.try_lock()
 		{
 			Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
-- 
2.43.0


From cceb63fb930e2e14d5486b1163711618566dca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 47/54] fix: check if a subject is closed and act on it as one
 step, another thread could end it in between

---
 .../rx_core_subject_publish/src/multicast.rs  |  90 +++++++++++---
 .../src/publish_subject.rs                    | 116 ++++++++++--------
 2 files changed, 136 insertions(+), 70 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index c296519..b3573ac 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -196,6 +196,23 @@ where
 		}
 	}
 
+	/// Applies the notification queue, then lets the state be changed while it's
+	/// still empty, before another thread could defer something.
+	fn apply_queue_then<R>(
+		&self,
+		subscribers: &mut MutexGuard<'_, Subscribers<In, InError>>,
+		observe: impl FnOnce(&mut MulticastDeferredState<In, InError>) -> R,
+	) -> R {
+		loop {
+			Self::apply_notification_queue(self.deferred_state.clone(), subscribers);
+
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if !state.is_dirty() {
+				return observe(&mut state);
+			}
+		}
+	}
+
 	pub(crate) fn try_apply_deferred(&mut self) {
 		// Another thread can still defer a notification between the moment the
 		// queue was found empty and the subscribers were released.
@@ -214,7 +231,11 @@ where
 
 		match self.subscribers.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
+				// First, the notification queue!
+				if self.apply_queue_then(&mut subscribers, |state| state.is_closed()) {
+					// Closed by another thread since the caller checked
+					return Err(MulticastAddLockError { id, subscriber });
+				}
 
 				subscribers.add_subscriber(id, subscriber);
 
@@ -227,9 +248,10 @@ where
 	pub(crate) fn try_next(&mut self, next: In) -> Result<(), MulticastNextLockError<In>> {
 		match self.subscribers.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
-
-				subscribers.next(next);
+				// First, the notification queue!
+				if !self.apply_queue_then(&mut subscribers, |state| state.is_closed()) {
+					subscribers.next(next);
+				}
 
 				Ok(())
 			}
@@ -243,9 +265,11 @@ where
 	) -> Result<(), MulticastErrorLockError<InError>> {
 		match self.subscribers.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
-
-				subscribers.error(error);
+				// First, the notification queue!
+				if self.apply_queue_then(&mut subscribers, |state| state.try_observe_error(&error))
+				{
+					subscribers.error(error);
+				}
 
 				Ok(())
 			}
@@ -259,12 +283,14 @@ where
 	) -> Result<(), MulticastCompleteLockError<In>> {
 		match self.subscribers.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
-
-				if let Some(last) = last {
-					subscribers.next(last);
+				// First, the notification queue!
+				if self.apply_queue_then(&mut subscribers, |state| state.try_observe_complete()) {
+					if let Some(last) = last {
+						subscribers.next(last);
+					}
+					subscribers.complete();
 				}
-				subscribers.complete();
+
 				Ok(())
 			}
 			Err(_) => Err(MulticastCompleteLockError { last }),
@@ -274,11 +300,15 @@ where
 	pub(crate) fn try_unsubscribe(&mut self) -> Result<(), MulticastUnsubscribeLockError> {
 		match self.subscribers.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
-
-				self.deferred_state.lock_ignore_poison().closed_flag.close();
-
-				subscribers.unsubscribe();
+				// First, the notification queue!
+				let is_first_unsubscribe = self.apply_queue_then(&mut subscribers, |state| {
+					state.closed_flag.close();
+					state.try_observe_unsubscribe()
+				});
+
+				if is_first_unsubscribe {
+					subscribers.unsubscribe();
+				}
 
 				Ok(())
 			}
@@ -344,6 +374,32 @@ where
 		self.deferred_notifications_queue.push(notification);
 	}
 
+	/// Returns false if it's already closed and the error should be ignored.
+	pub(crate) fn try_observe_error(&mut self, error: &InError) -> bool {
+		let is_open = !self.is_closed();
+		if is_open {
+			self.observed_error = Some(error.clone());
+		}
+		is_open
+	}
+
+	/// Returns false if it's already closed and the completion should be
+	/// ignored.
+	pub(crate) fn try_observe_complete(&mut self) -> bool {
+		let is_open = !self.is_closed();
+		if is_open {
+			self.observed_state.complete();
+		}
+		is_open
+	}
+
+	/// Returns false if it's already unsubscribed.
+	pub(crate) fn try_observe_unsubscribe(&mut self) -> bool {
+		let is_first_unsubscribe = !self.is_unsubscribed();
+		self.observed_state.unsubscribe_if_not_already();
+		is_first_unsubscribe
+	}
+
 	pub(crate) fn drain_notification_queue(&mut self) -> Vec<MulticastNotification<In, InError>> {
 		self.deferred_notifications_queue
 			.drain(..)
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 5d4ba21..a620ea1 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -74,6 +74,30 @@ where
 	fn try_apply_deferred(&mut self) {
 		self.subscribers.try_apply_deferred();
 	}
+
+	/// Subscribing to a closed subject could also cause a panic, but I prefer
+	/// this
+	fn finish_subscriber(&self, subscriber: &mut impl Subscriber<In = In, InError = InError>) {
+		// The subscriber must not be called while the state is locked, as it may
+		// call back into this subject.
+		let (observed_error, is_completed) = {
+			let state = self.deferred_state.lock_ignore_poison();
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		if let Some(error) = observed_error {
+			subscriber.error(error);
+		} else if is_completed {
+			subscriber.complete();
+		}
+
+		if !subscriber.is_closed() {
+			subscriber.unsubscribe();
+		}
+	}
 }
 
 impl<In, InError> PublishSubject<In, InError>
@@ -97,14 +121,11 @@ where
 	/// completion, as a single operation: Nothing a subscriber does in response
 	/// to the last value can get between the two.
 	pub fn complete_with(&mut self, last: Option<In>) {
-		if !self.is_closed() {
-			self.deferred_state
-				.lock_ignore_poison()
-				.observed_state
-				.complete();
-
-			if let Err(complete_error) = self.subscribers.try_complete(last) {
-				let mut state = self.deferred_state.lock_ignore_poison();
+		if !self.is_closed()
+			&& let Err(complete_error) = self.subscribers.try_complete(last)
+		{
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if state.try_observe_complete() {
 				if let Some(last) = complete_error.last {
 					state.defer_notification(MulticastNotification::Next(last));
 				}
@@ -138,27 +159,8 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		// The subscriber must not be called while the state is locked, as it may
-		// call back into this subject.
-		let (observed_error, is_completed) = {
-			let state = self.deferred_state.lock_ignore_poison();
-			(
-				state.observed_error.clone(),
-				state.observed_state.is_completed(),
-			)
-		};
-
-		if let Some(error) = observed_error {
-			subscriber.error(error);
-		} else if is_completed {
-			subscriber.complete();
-		}
-
 		if self.is_closed() {
-			// Subscribing to a closed subject could also cause a panic, but I prefer this
-			if !subscriber.is_closed() {
-				subscriber.unsubscribe();
-			}
+			self.finish_subscriber(&mut subscriber);
 			MulticastSubscription::new_closed(self.deferred_state.clone(), self.subscribers.clone())
 		} else {
 			let shared_subscriber = Arc::new(Mutex::new(subscriber));
@@ -168,12 +170,24 @@ where
 			let id = match try_add_result {
 				Ok(id) => id,
 				Err(add_subscriber_error) => {
-					self.deferred_state.lock_ignore_poison().defer_notification(
-						MulticastNotification::Add(
-							add_subscriber_error.id,
-							add_subscriber_error.subscriber,
-						),
-					);
+					let mut state = self.deferred_state.lock_ignore_poison();
+
+					if state.is_closed() {
+						drop(state);
+						let mut subscriber = add_subscriber_error.subscriber;
+						self.finish_subscriber(&mut subscriber);
+						self.try_apply_deferred();
+
+						return MulticastSubscription::new_closed(
+							self.deferred_state.clone(),
+							self.subscribers.clone(),
+						);
+					}
+
+					state.defer_notification(MulticastNotification::Add(
+						add_subscriber_error.id,
+						add_subscriber_error.subscriber,
+					));
 					add_subscriber_error.id
 				}
 			};
@@ -201,22 +215,22 @@ where
 		if !self.is_closed()
 			&& let Err(next_error) = self.subscribers.try_next(next)
 		{
-			self.deferred_state
-				.lock_ignore_poison()
-				.defer_notification(MulticastNotification::Next(next_error.next));
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if !state.is_closed() {
+				state.defer_notification(MulticastNotification::Next(next_error.next));
+			}
 		}
 
 		self.try_apply_deferred();
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_error = Some(error.clone());
-
-			if let Err(error_error) = self.subscribers.try_error(error) {
-				self.deferred_state
-					.lock_ignore_poison()
-					.defer_notification(MulticastNotification::Error(error_error.error));
+		if !self.is_closed()
+			&& let Err(error_error) = self.subscribers.try_error(error)
+		{
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if state.try_observe_error(&error_error.error) {
+				state.defer_notification(MulticastNotification::Error(error_error.error));
 			}
 		}
 
@@ -267,17 +281,13 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		let was_unsubscribed = {
-			let mut state = self.deferred_state.lock_ignore_poison();
-			let was_unsubscribed = state.is_unsubscribed();
-			state.observed_state.unsubscribe_if_not_already();
-			was_unsubscribed
-		};
+		let was_unsubscribed = self.deferred_state.lock_ignore_poison().is_unsubscribed();
 
 		if !was_unsubscribed && let Err(_unsubscribe_error) = self.subscribers.try_unsubscribe() {
-			self.deferred_state
-				.lock_ignore_poison()
-				.defer_notification(MulticastNotification::Unsubscribe);
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if state.try_observe_unsubscribe() {
+				state.defer_notification(MulticastNotification::Unsubscribe);
+			}
 		}
 
 		self.try_apply_deferred();
-- 
2.43.0


From 0b9c1df5d830c3c9ecaa48093dfad18e11cc8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:41 +0000
Subject: [PATCH 48/54] fix: don't leave an unsubscribe of a shared
 subscription pending while another thread holds its lock

---
 .../src/subscriptions/subscription_shared.rs  | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 23bf075..475ee7d 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -5,7 +5,7 @@ use rx_core_macro_subscription_derive::RxSubscription;
 use crate::{
 	LockWithPoisonBehavior, SubscriptionClosedFlag, SubscriptionData, SubscriptionLike,
 	SubscriptionLikePushNotificationExtention, SubscriptionNotification, SubscriptionWithTeardown,
-	TeardownCollectionExtension,
+	Teardown, TeardownCollection, TeardownCollectionExtension,
 };
 
 pub(crate) const SUBSCRIPTION_MAX_RECURSION_DEPTH: usize = 10;
@@ -88,7 +88,6 @@ impl Default for SubscriptionDeferredState {
 
 #[derive(RxSubscription, Default, Clone, Debug)]
 #[_rx_core_common_crate(crate)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl] // It's shared
 pub struct SharedSubscription {
 	#[destination]
@@ -108,7 +107,9 @@ impl SharedSubscription {
 	}
 
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// Another thread can still defer a notification between the moment the
+		// queue was found empty and the subscription was released.
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscription) = self.subscription.try_lock()
 		{
 			SharedSubscription::apply_notification_queue(
@@ -181,12 +182,10 @@ impl SharedSubscription {
 
 impl SubscriptionLike for SharedSubscription {
 	fn is_closed(&self) -> bool {
+		// It's only ever closed through the deferred state. Locking the
+		// subscription too would only get in the way of an unsubscribe on
+		// another thread.
 		self.deferred_state.lock_ignore_poison().is_closed()
-			|| self
-				.subscription
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
 	}
 
 	fn unsubscribe(&mut self) {
@@ -209,6 +208,15 @@ impl SubscriptionLike for SharedSubscription {
 	}
 }
 
+impl TeardownCollection for SharedSubscription {
+	fn add_teardown(&mut self, teardown: Teardown) {
+		self.subscription.add_teardown(teardown);
+
+		// Another thread could've tried to unsubscribe in the meantime
+		self.try_apply_deferred();
+	}
+}
+
 impl Drop for SharedSubscription {
 	fn drop(&mut self) {
 		// Don't do anything, it's shared
-- 
2.43.0


From ee975c097c5bb45b28007fe43c24c87352f226f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:58 +0000
Subject: [PATCH 49/54] fix: signals sent to a shared subscriber from several
 threads were lost, duplicated or left pending

---
 .../src/subscribers/subscriber_shared.rs      | 165 ++++++++++++------
 1 file changed, 116 insertions(+), 49 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 916b4bc..45a9425 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -5,7 +5,7 @@ use rx_core_macro_subscriber_derive::RxSubscriber;
 use crate::{
 	LockWithPoisonBehavior, RxObserver, SharedDestination, Signal, Subscriber,
 	SubscriberNotification, SubscriberPushNotificationExtention, SubscriptionClosedFlag,
-	SubscriptionLike, UpgradeableObserver,
+	SubscriptionLike, Teardown, TeardownCollection, UpgradeableObserver,
 };
 
 pub(crate) const SUBSCRIBER_MAX_RECURSION_DEPTH: usize = 10;
@@ -69,6 +69,21 @@ where
 		self.deferred_notifications_queue.push(notification);
 	}
 
+	/// Returns false if it's already closed and the error should be ignored.
+	pub(crate) fn try_observe_error(&mut self) -> bool {
+		let is_open = !self.is_closed();
+		self.observed_error |= is_open;
+		is_open
+	}
+
+	/// Returns false if it's already closed and the completion should be
+	/// ignored.
+	pub(crate) fn try_observe_completion(&mut self) -> bool {
+		let is_open = !self.is_closed();
+		self.observed_completion |= is_open;
+		is_open
+	}
+
 	pub(crate) fn drain_notification_queue(&mut self) -> Vec<SubscriberNotification<In, InError>> {
 		self.deferred_notifications_queue
 			.drain(..)
@@ -147,7 +162,6 @@ where
 #[_rx_core_common_crate(crate)]
 #[rx_in(Destination::In)]
 #[rx_in_error(Destination::InError)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl]
 pub struct SharedSubscriber<Destination>
 where
@@ -188,8 +202,27 @@ where
 		Arc::downgrade(&self.shared_destination)
 	}
 
-	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+	/// Applies the notification queue, then lets the state be changed while it's
+	/// still empty, before another thread could defer something.
+	fn apply_queue_then<R>(
+		&self,
+		subscriber: &mut MutexGuard<'_, Destination>,
+		observe: impl FnOnce(&mut SubscriberDeferredState<Destination::In, Destination::InError>) -> R,
+	) -> R {
+		loop {
+			Self::apply_notification_queue(self.deferred_state.clone(), subscriber);
+
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if !state.is_dirty() {
+				return observe(&mut state);
+			}
+		}
+	}
+
+	fn try_apply_deferred(&self) {
+		// Another thread can still defer a notification between the moment the
+		// queue was found empty and the destination was released.
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscriber) = self.shared_destination.try_lock()
 		{
 			SharedSubscriber::<Destination>::apply_notification_queue::<Destination>(
@@ -231,9 +264,13 @@ where
 			// notifications to acquire it again
 			for notification in notifications.into_iter() {
 				let is_closing = notification.is_closing();
+				let is_unsubscribe = matches!(&notification, SubscriberNotification::Unsubscribe);
 
-				// Other notifications can be safely dropped when already closed
-				if !state.lock_clear_poison().is_closed_ignoring_deferred() {
+				// Other notifications can be safely dropped when already closed,
+				// but a destination can stay open after a terminal signal.
+				if (is_unsubscribe || !state.lock_clear_poison().is_closed_ignoring_deferred())
+					&& !subscriber.is_closed()
+				{
 					subscriber.push(notification);
 				}
 
@@ -250,9 +287,12 @@ where
 	) -> Result<(), SubscriberNextLockError<Destination::In>> {
 		match self.shared_destination.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
-
-				subscribers.next(next);
+				// First, the notification queue!
+				if !self.apply_queue_then(&mut subscribers, |state| state.is_closed())
+					&& !subscribers.is_closed()
+				{
+					subscribers.next(next);
+				}
 
 				Ok(())
 			}
@@ -266,9 +306,12 @@ where
 	) -> Result<(), SubscriberErrorLockError<Destination::InError>> {
 		match self.shared_destination.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
-
-				subscribers.error(error);
+				// First, the notification queue!
+				if self.apply_queue_then(&mut subscribers, |state| state.try_observe_error())
+					&& !subscribers.is_closed()
+				{
+					subscribers.error(error);
+				}
 
 				Ok(())
 			}
@@ -279,9 +322,13 @@ where
 	pub(crate) fn try_complete(&mut self) -> Result<(), SubscriberCompleteLockError> {
 		match self.shared_destination.try_lock() {
 			Ok(mut subscribers) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
+				// First, the notification queue!
+				if self.apply_queue_then(&mut subscribers, |state| state.try_observe_completion())
+					&& !subscribers.is_closed()
+				{
+					subscribers.complete();
+				}
 
-				subscribers.complete();
 				Ok(())
 			}
 			Err(_) => Err(SubscriberCompleteLockError),
@@ -291,9 +338,11 @@ where
 	pub(crate) fn try_unsubscribe(&mut self) -> Result<(), SubscriberUnsubscribeLockError> {
 		match self.shared_destination.try_lock() {
 			Ok(mut subscriber) => {
-				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscriber); // First, the notification queue!
-
-				self.deferred_state.lock_ignore_poison().closed_flag.close();
+				// First, the notification queue!
+				self.apply_queue_then(&mut subscriber, |state| {
+					state.observed_unsubscribe = true;
+					state.closed_flag.close();
+				});
 
 				if !subscriber.is_closed() {
 					subscriber.unsubscribe();
@@ -326,37 +375,38 @@ where
 		if !self.is_closed()
 			&& let Err(next_error) = self.try_next(next)
 		{
-			self.deferred_state
-				.lock_ignore_poison()
-				.defer_notification(SubscriberNotification::Next(next_error.next));
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if !state.is_closed() {
+				state.defer_notification(SubscriberNotification::Next(next_error.next));
+			}
 		}
 
 		self.try_apply_deferred();
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_error = true;
-
-			if let Err(error_error) = self.try_error(error) {
-				self.deferred_state
-					.lock_ignore_poison()
-					.defer_notification(SubscriberNotification::Error(error_error.error));
+		if !self.is_closed()
+			&& let Err(error_error) = self.try_error(error)
+		{
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if state.try_observe_error() {
+				state.defer_notification(SubscriberNotification::Error(error_error.error));
 			}
 		}
+
 		self.try_apply_deferred();
 	}
 
 	fn complete(&mut self) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_completion = true;
-
-			if let Err(_complete_error) = self.try_complete() {
-				self.deferred_state
-					.lock_ignore_poison()
-					.defer_notification(SubscriberNotification::Complete);
+		if !self.is_closed()
+			&& let Err(_complete_error) = self.try_complete()
+		{
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if state.try_observe_completion() {
+				state.defer_notification(SubscriberNotification::Complete);
 			}
 		}
+
 		self.try_apply_deferred();
 	}
 }
@@ -366,32 +416,49 @@ where
 	Destination: 'static + Subscriber + Send + Sync,
 {
 	fn is_closed(&self) -> bool {
-		self.deferred_state.lock_ignore_poison().is_closed()
-			|| self
-				.shared_destination
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
+		if self.deferred_state.lock_ignore_poison().is_closed() {
+			return true;
+		}
+
+		let is_closed = self
+			.shared_destination
+			.try_lock()
+			.map(|s| s.is_closed())
+			.unwrap_or(false);
+
+		// Another thread could've deferred something while it was locked here
+		self.try_apply_deferred();
+
+		is_closed
 	}
 
 	fn unsubscribe(&mut self) {
-		let was_unsubscribed = {
-			let mut state = self.deferred_state.lock_ignore_poison();
-			let was_unsubscribed = state.is_unsubscribed();
-			state.observed_unsubscribe = true;
-			was_unsubscribed
-		};
+		let was_unsubscribed = self.deferred_state.lock_ignore_poison().is_unsubscribed();
 
 		if !was_unsubscribed && let Err(_unsubscribe_error) = self.try_unsubscribe() {
-			self.deferred_state
-				.lock_ignore_poison()
-				.defer_notification(SubscriberNotification::Unsubscribe);
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if !state.is_unsubscribed() {
+				state.defer_notification(SubscriberNotification::Unsubscribe);
+				state.observed_unsubscribe = true;
+			}
 		}
 
 		self.try_apply_deferred();
 	}
 }
 
+impl<Destination> TeardownCollection for SharedSubscriber<Destination>
+where
+	Destination: 'static + Subscriber + Send + Sync,
+{
+	fn add_teardown(&mut self, teardown: Teardown) {
+		self.shared_destination.add_teardown(teardown);
+
+		// Another thread could've deferred something while it was locked here
+		self.try_apply_deferred();
+	}
+}
+
 impl<Destination> SharedDestination<Destination> for SharedSubscriber<Destination>
 where
 	Destination: 'static + Subscriber + Send + Sync,
-- 
2.43.0


From abdc5059638d1eb006127cd10e47c60960f77a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:29 +0000
Subject: [PATCH 50/54] fix: an error could be lost to scheduled work
 unsubscribing the destination on another thread (delay, debounce_time,
 observe_on)

---
 .../src/debounce_time_subscriber.rs                           | 4 +++-
 crates/rx_core_operator_delay/src/delay_subscriber.rs         | 4 +++-
 .../rx_core_operator_observe_on/src/observe_on_subscriber.rs  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index 660ee15..a11563d 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -116,10 +116,12 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 		self.pending_value.store(0, Ordering::Relaxed);
 		self.scheduler.lock().cancel(self.cancellation_id);
 		self.destination.error(error);
+		// Only now, otherwise scheduled work running on another thread could
+		// unsubscribe the destination ahead of the error.
+		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_delay/src/delay_subscriber.rs b/crates/rx_core_operator_delay/src/delay_subscriber.rs
index 26bc2b3..266a909 100644
--- a/crates/rx_core_operator_delay/src/delay_subscriber.rs
+++ b/crates/rx_core_operator_delay/src/delay_subscriber.rs
@@ -106,10 +106,12 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 		self.scheduled_work_counter.store(0, Ordering::Relaxed);
 		self.scheduler.lock().cancel(self.cancellation_id);
 		self.destination.error(error);
+		// Only now, otherwise scheduled work running on another thread could
+		// unsubscribe the destination ahead of the error.
+		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 948487f..429b953 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -105,8 +105,10 @@ where
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
 		self.upstream_errored.store(true, Ordering::Relaxed);
-		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 		self.destination.error(error);
+		// Only now, otherwise scheduled work running on another thread could
+		// unsubscribe the destination ahead of the error.
+		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 	}
 
 	#[inline]
-- 
2.43.0


From 27c42d1f4ca9a0c20f43a7cbfa2d236fc1077c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:25 +0000
Subject: [PATCH 51/54] fix: scheduled work bypassed the deferred signals of
 its shared destination, leaving a concurrent or re-entrant unsubscribe
 pending

---
 .../src/message_subscription.rs                     |  3 +--
 .../src/interval_subscription.rs                    |  8 +++-----
 .../src/iterator_on_tick_subscription.rs            |  7 +++----
 .../src/timer_subscription.rs                       | 13 ++++++-------
 crates/rx_core_operator_adsr/src/adsr_subscriber.rs |  9 ++++-----
 .../src/debounce_time_subscriber.rs                 |  3 +--
 .../rx_core_operator_delay/src/delay_subscriber.rs  |  3 +--
 .../src/observe_on_subscriber.rs                    |  3 +--
 8 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/crates/rx_bevy_observable_message/src/message_subscription.rs b/crates/rx_bevy_observable_message/src/message_subscription.rs
index 6ad04a8..ddf1d35 100644
--- a/crates/rx_bevy_observable_message/src/message_subscription.rs
+++ b/crates/rx_bevy_observable_message/src/message_subscription.rs
@@ -28,14 +28,13 @@ where
 			let cancellation_id = scheduler_lock.generate_cancellation_id();
 
 			let mut message_cursor = MessageCursor::<Destination::In>::default();
-			let shared_destination_clone = shared_destination.clone();
+			let mut destination = shared_destination.clone();
 			scheduler_lock.schedule_continuous_work(
 				move |_, context| {
 					let events = context
 						.deferred_world
 						.resource::<Messages<Destination::In>>();
 
-					let mut destination = shared_destination_clone.lock();
 					if destination.is_closed() {
 						return WorkResult::Done;
 					}
diff --git a/crates/rx_core_observable_interval/src/interval_subscription.rs b/crates/rx_core_observable_interval/src/interval_subscription.rs
index addcea8..ead7888 100644
--- a/crates/rx_core_observable_interval/src/interval_subscription.rs
+++ b/crates/rx_core_observable_interval/src/interval_subscription.rs
@@ -38,7 +38,7 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			let mut count = if interval_subscription_options.start_on_subscribe {
 				1
@@ -48,13 +48,11 @@ where
 
 			scheduler.schedule_repeated_work(
 				move |_, _| {
-					let mut destination_lock = destination_clone.lock();
-
-					if destination_lock.is_closed() {
+					if destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
-					destination_lock.next(count);
+					destination_clone.next(count);
 					count += 1;
 
 					WorkResult::Pending
diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 2bdc76b..f5ef5b4 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -98,8 +98,7 @@ where
 				move |_, _context| {
 					state.observed_ticks += 1;
 
-					let mut destination = state.destination.lock();
-					if destination.is_closed() {
+					if state.destination.is_closed() {
 						return WorkResult::Done;
 					}
 
@@ -109,9 +108,9 @@ where
 						&& let Some(value) = state.peekable_iterator.next()
 					{
 						state.observed_ticks = 0;
-						destination.next(value);
+						state.destination.next(value);
 						if state.peekable_iterator.peek().is_none() {
-							destination.complete();
+							state.destination.complete();
 							WorkResult::Done
 						} else {
 							WorkResult::Pending
diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index 95b9bb4..8162019 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -1,8 +1,8 @@
 use std::time::Duration;
 
 use rx_core_common::{
-	Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber, Subscriber,
-	SubscriptionLike, WorkCancellationId,
+	RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber,
+	Subscriber, SubscriptionLike, WorkCancellationId,
 };
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -34,14 +34,13 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			scheduler.schedule_delayed_work(
 				move |_, _| {
-					let mut destination = destination_clone.lock();
-					destination.next(());
-					if !destination.is_closed() {
-						destination.complete();
+					destination_clone.next(());
+					if !destination_clone.is_closed() {
+						destination_clone.complete();
 					}
 				},
 				duration,
diff --git a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
index 669b5b5..8f233e1 100644
--- a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
+++ b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
@@ -58,7 +58,7 @@ where
 			options,
 		}));
 		let shared_state_clone = shared_state.clone();
-		let shared_destination_clone = shared_destination.clone();
+		let mut shared_destination_clone = shared_destination.clone();
 		let scheduler_clone = scheduler.clone();
 		let mut scheduler_lock = scheduler_clone.lock();
 		let cancellation_id = scheduler_lock.generate_cancellation_id();
@@ -66,8 +66,7 @@ where
 		let mut envelope_state = AdsrEnvelopeState::default();
 		scheduler_lock.schedule_continuous_work(
 			move |tick, _context| {
-				let mut destination_lock = shared_destination_clone.lock();
-				if destination_lock.is_closed() {
+				if shared_destination_clone.is_closed() {
 					return WorkResult::Done;
 				}
 
@@ -110,8 +109,8 @@ where
 				};
 
 				if let Some(next) = next {
-					destination_lock.next(next);
-					if destination_lock.is_closed() {
+					shared_destination_clone.next(next);
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 				}
diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index a11563d..d98cecb 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -69,7 +69,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 		self.observed_values += 1;
 		let value_ordinal = self.observed_values;
 		let pending_value = self.pending_value.clone();
@@ -81,7 +81,6 @@ where
 		self.pending_value.store(value_ordinal, Ordering::Relaxed);
 		scheduler.schedule_delayed_work(
 			move |_, _| {
-				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
diff --git a/crates/rx_core_operator_delay/src/delay_subscriber.rs b/crates/rx_core_operator_delay/src/delay_subscriber.rs
index 266a909..3f3d7ce 100644
--- a/crates/rx_core_operator_delay/src/delay_subscriber.rs
+++ b/crates/rx_core_operator_delay/src/delay_subscriber.rs
@@ -66,7 +66,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 
 		self.scheduled_work_counter.fetch_add(1, Ordering::Relaxed);
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
@@ -74,7 +74,6 @@ where
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 		self.scheduler.lock().schedule_delayed_work(
 			move |_, _| {
-				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 429b953..14327e4 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -59,7 +59,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 
 		self.scheduled_work_counter.fetch_add(1, Ordering::Relaxed);
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
@@ -73,7 +73,6 @@ where
 					return;
 				}
 
-				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
-- 
2.43.0


From 324f06e88e4fa4b5df0134b21d6062cf1027eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:32 +0000
Subject: [PATCH 52/54] fix: values pushed while scheduled work was finishing
 on another thread were lost (delay, debounce_time, observe_on)

---
 .../src/debounce_time_subscriber.rs                      | 4 ++++
 crates/rx_core_operator_delay/src/delay_subscriber.rs    | 9 +++++----
 .../src/observe_on_subscriber.rs                         | 9 +++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index d98cecb..3bbebad 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -91,9 +91,12 @@ where
 					.compare_exchange(value_ordinal, 0, Ordering::Relaxed, Ordering::Relaxed)
 					.is_ok();
 
+				// Read after the flags, as another value could have become pending
+				// on another thread before it finished upstream.
 				// try complete
 				if upstream_completed.load(Ordering::Relaxed)
 					&& was_last_pending_value
+					&& pending_value.load(Ordering::Relaxed) == 0
 					&& !destination.is_closed()
 				{
 					destination.complete();
@@ -103,6 +106,7 @@ where
 				// try unsubscribe
 				if upstream_unsubscribed.load(Ordering::Relaxed)
 					&& was_last_pending_value
+					&& pending_value.load(Ordering::Relaxed) == 0
 					&& !destination.is_closed()
 				{
 					destination.unsubscribe();
diff --git a/crates/rx_core_operator_delay/src/delay_subscriber.rs b/crates/rx_core_operator_delay/src/delay_subscriber.rs
index 3f3d7ce..0436456 100644
--- a/crates/rx_core_operator_delay/src/delay_subscriber.rs
+++ b/crates/rx_core_operator_delay/src/delay_subscriber.rs
@@ -78,12 +78,13 @@ where
 					destination.next(next);
 				}
 
-				let previous_work_counter_before_sub =
-					scheduled_work_counter.fetch_sub(1, Ordering::Relaxed);
+				scheduled_work_counter.fetch_sub(1, Ordering::Relaxed);
 
+				// The counter is read after the flags, as values could have been
+				// scheduled by another thread before it finished upstream.
 				// try complete
 				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& scheduled_work_counter.load(Ordering::Relaxed) == 0
 					&& !destination.is_closed()
 				{
 					destination.complete();
@@ -92,7 +93,7 @@ where
 
 				// try unsubscribe
 				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& scheduled_work_counter.load(Ordering::Relaxed) == 0
 					&& !destination.is_closed()
 				{
 					destination.unsubscribe();
diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 14327e4..c481734 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -77,12 +77,13 @@ where
 					destination.next(next);
 				}
 
-				let previous_work_counter_before_sub =
-					scheduled_work_counter.fetch_sub(1, Ordering::Relaxed);
+				scheduled_work_counter.fetch_sub(1, Ordering::Relaxed);
 
+				// The counter is read after the flags, as values could have been
+				// scheduled by another thread before it finished upstream.
 				// try complete
 				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& scheduled_work_counter.load(Ordering::Relaxed) == 0
 					&& !destination.is_closed()
 				{
 					destination.complete();
@@ -91,7 +92,7 @@ where
 
 				// try unsubscribe
 				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& scheduled_work_counter.load(Ordering::Relaxed) == 0
 					&& !destination.is_closed()
 				{
 					destination.unsubscribe();
-- 
2.43.0


From ecae150b4289a1cdacd7deccc8e225b12f606986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:37 +0000
Subject: [PATCH 53/54] fix: the trailing value was lost when upstream finished
 while it was being emitted on another thread (throttle_time)

---
 .../src/throttle_time_subscriber.rs           | 49 ++++++++++++-------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 827e75b..8abfd98 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -16,6 +16,8 @@ struct ThrottleTimeState<In> {
 	last_value: Option<In>,
 	last_tick_time: Duration,
 	throttle_deadline: Option<Duration>,
+	/// The trailing value was already taken, but it wasn't emitted yet.
+	is_emitting_trailing: bool,
 	upstream_state: SubscriberState,
 }
 
@@ -26,7 +28,8 @@ impl<In> ThrottleTimeState<In> {
 	}
 
 	fn has_pending_trailing(&self, options: ThrottleTimeOptions) -> bool {
-		options.output_behavior.emits_trailing() && self.last_value.is_some()
+		options.output_behavior.emits_trailing()
+			&& (self.last_value.is_some() || self.is_emitting_trailing)
 	}
 }
 
@@ -72,6 +75,7 @@ where
 				last_value: None,
 				last_tick_time: Duration::ZERO,
 				throttle_deadline: None,
+				is_emitting_trailing: false,
 				upstream_state: SubscriberState::default(),
 			})),
 		}
@@ -84,7 +88,7 @@ where
 
 		self.scheduler.lock().schedule_continuous_work(
 			move |tick, _context| {
-				let (continue_work, emit_value, should_complete, should_unsubscribe) = {
+				let emit_value = {
 					let mut state = state.lock_ignore_poison();
 					state.last_tick_time = tick.now();
 
@@ -105,23 +109,34 @@ where
 					};
 
 					// The cooldown lasts from the trailing emission to the next tick
-					let continue_for_cooldown = emit_value.is_some();
-					state.throttle_deadline = continue_for_cooldown.then_some(state.last_tick_time);
+					state.throttle_deadline = emit_value.is_some().then_some(state.last_tick_time);
+					state.is_emitting_trailing = emit_value.is_some();
 
-					(
-						continue_for_cooldown,
-						emit_value,
-						state.upstream_state.is_completed(),
-						state.upstream_state.is_closed_but_not_completed(),
-					)
+					emit_value
 				};
 
-				if let Some(value) = emit_value {
-					destination.next(value);
-					if destination.is_closed() {
+				let Some(value) = emit_value else {
+					return WorkResult::Done;
+				};
+
+				destination.next(value);
+				let is_closed = destination.is_closed();
+
+				// Upstream could have finished during the emission
+				let (should_complete, should_unsubscribe) = {
+					let mut state = state.lock_ignore_poison();
+					state.is_emitting_trailing = false;
+
+					if is_closed || state.throttle_deadline.is_none() {
 						return WorkResult::Done;
 					}
-				}
+
+					(
+						state.last_value.is_none() && state.upstream_state.is_completed(),
+						state.last_value.is_none()
+							&& state.upstream_state.is_closed_but_not_completed(),
+					)
+				};
 
 				if should_complete {
 					destination.complete();
@@ -133,11 +148,7 @@ where
 					return WorkResult::Done;
 				}
 
-				if continue_work {
-					WorkResult::Pending
-				} else {
-					WorkResult::Done
-				}
+				WorkResult::Pending
 			},
 			self.cancellation_id,
 		);
-- 
2.43.0


From 02d7c3ef45b5e83ab2a5d551e739c2ab60e3f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:30 +0000
Subject: [PATCH 54/54] fix: restarting an adsr envelope didn't count the time
 of its first tick (adsr)

---
 .../rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
index 86f5de5..02b3f2f 100644
--- a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
+++ b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
@@ -64,10 +64,8 @@ impl AdsrEnvelopeState {
 			self.adsr_envelope_phase,
 		);
 
-		if self
-			.adsr_phase_transition
-			.contains(AdsrEnvelopePhaseTransition::Stop)
-		{
+		// Not on a restart, the envelope is already running again
+		if self.adsr_envelope_phase == AdsrEnvelopePhase::None {
 			self.reset();
 		}
 
-- 
2.43.0

