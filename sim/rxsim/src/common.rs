//! Pieces shared by the worlds.
pub use rx_core::prelude::*;
pub use rx_core_common::*;
pub use rx_core_notification_store::{QueueOverflowBehavior, QueueOverflowOptions};
pub use rx_core_macro_observable_derive::RxObservable;
pub use rx_core_macro_observer_derive::RxObserver;
pub use rx_core_scheduler_ticking::{Tick, TickingScheduler};
pub use rx_core_testing::prelude::*;
pub use simkit::*;
pub use std::collections::BTreeMap;
pub use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
pub use std::sync::{Arc, Mutex};
pub use std::time::Duration;

pub type Sched = TickingScheduler<MockContextProvider>;
pub type Handle = SchedulerHandle<Sched>;

/// Every pipeline in the simulation carries these
pub type V = i64;
pub type E = u32;

pub fn ms(n: u64) -> Duration {
	Duration::from_millis(n)
}

pub const REAL_CORE: &str = "every rx_core crate under /repo/crates that the pipelines pull in, compiled from unmodified sources";
pub const STUB_CORE: &str = "std::sync::{Mutex, RwLock, atomic} replaced by simulated equivalents, HashMap hash seeds drawn from the run seed, \
	time is the tick handed to the (real) TickingSchedulerExecutor, sources and observers are harness code";

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sig {
	Next(V),
	Error(E),
	Complete,
	/// Closed without a terminal signal
	Unsub,
}

impl Sig {
	pub fn is_terminal(&self) -> bool {
		matches!(self, Sig::Error(_) | Sig::Complete)
	}
}

pub type Hook = Arc<dyn Fn(&Sig, usize) + Send + Sync>;

#[derive(Default)]
pub struct ProbeState {
	/// What was observed, including the unsubscription
	pub log: Vec<Sig>,
	/// Observed despite already being closed
	pub late: Vec<Sig>,
	pub closed: bool,
	/// How many times its own resources were released
	pub teardowns: u32,
	pub dropped: u32,
}

/// What is left of a probe after it was given away
#[derive(Clone)]
pub struct Seen {
	pub name: u32,
	state: Arc<Mutex<ProbeState>>,
}

impl Seen {
	pub fn log(&self) -> Vec<Sig> {
		self.state.lock().unwrap().log.clone()
	}
	pub fn values(&self) -> Vec<V> {
		self.log()
			.iter()
			.filter_map(|s| if let Sig::Next(v) = s { Some(*v) } else { None })
			.collect()
	}
	pub fn terminal(&self) -> Option<Sig> {
		self.log().into_iter().find(Sig::is_terminal)
	}
	/// Values and the terminal, without unsubscription
	pub fn signals(&self) -> Vec<Sig> {
		self.log().into_iter().filter(|s| *s != Sig::Unsub).collect()
	}
	pub fn late(&self) -> Vec<Sig> {
		self.state.lock().unwrap().late.clone()
	}
	pub fn closed(&self) -> bool {
		self.state.lock().unwrap().closed
	}
	pub fn teardowns(&self) -> u32 {
		self.state.lock().unwrap().teardowns
	}
	pub fn count(&self) -> usize {
		self.state.lock().unwrap().log.len()
	}
	/// No signals after the end, the rule every observer relies on
	pub fn check_grammar(&self, what: &str) {
		let late = self.late();
		if !late.is_empty() {
			violation(
				format!("late-{}", late[0].kind_name()),
				format!("observer {} of {what} observed {late:?} after it was already closed: {:?}", self.name, self.log()),
			);
		}
	}
}

impl Sig {
	pub fn kind_name(&self) -> &'static str {
		match self {
			Sig::Next(_) => "next",
			Sig::Error(_) => "error",
			Sig::Complete => "complete",
			Sig::Unsub => "unsubscribe",
		}
	}
}

/// The strict observer at the end of every pipeline
#[derive(RxObserver)]
#[rx_in(V)]
#[rx_in_error(E)]
#[rx_upgrades_to(self)]
pub struct Probe {
	seen: Seen,
	teardown: SubscriptionData,
	hook: Option<Hook>,
	/// Closes itself after this many values
	limit: usize,
	values: usize,
}

impl Probe {
	pub fn new(name: u32, hook: Option<Hook>) -> (Probe, Seen) {
		let seen = Seen { name, state: Arc::default() };
		let mut teardown = SubscriptionData::default();
		let state = seen.state.clone();
		teardown.add_fn(move || state.lock().unwrap().teardowns += 1);
		(Probe { seen: seen.clone(), teardown, hook, limit: usize::MAX, values: 0 }, seen)
	}

	pub fn with_limit(mut self, limit: usize) -> Self {
		self.limit = limit;
		self
	}

	/// Called while the library is holding on to whatever it holds on to
	/// while signalling downstream.
	fn observe(&mut self, sig: Sig) {
		ev!("observer {} <- {:?}", self.seen.name, sig);
		let (late, nth) = {
			let mut state = self.seen.state.lock().unwrap();
			let late = state.closed;
			if late {
				state.late.push(sig.clone());
			} else {
				state.log.push(sig.clone());
			}
			(late, state.log.len())
		};
		if late {
			return;
		}
		if let Some(hook) = self.hook.clone() {
			hook(&sig, nth);
		}
		if matches!(sig, Sig::Next(_)) {
			self.values += 1;
		}
		if sig.is_terminal() || self.values >= self.limit {
			self.close(None);
		}
	}

	fn close(&mut self, sig: Option<Sig>) {
		let first = {
			let mut state = self.seen.state.lock().unwrap();
			let first = !state.closed;
			state.closed = true;
			if first && let Some(sig) = sig {
				ev!("observer {} <- {:?}", self.seen.name, sig);
				state.log.push(sig);
			}
			first
		};
		if first {
			self.teardown.unsubscribe();
		}
	}
}

impl rx_core_common::RxObserver for Probe {
	fn next(&mut self, next: V) {
		self.observe(Sig::Next(next));
	}
	fn error(&mut self, error: E) {
		self.observe(Sig::Error(error));
	}
	fn complete(&mut self) {
		self.observe(Sig::Complete);
	}
}

impl SubscriptionLike for Probe {
	fn is_closed(&self) -> bool {
		self.teardown.is_closed()
	}
	fn unsubscribe(&mut self) {
		self.close(Some(Sig::Unsub));
	}
}

impl TeardownCollection for Probe {
	fn add_teardown(&mut self, teardown: Teardown) {
		self.teardown.add_teardown(teardown);
	}
}

impl Drop for Probe {
	fn drop(&mut self) {
		self.close(Some(Sig::Unsub));
		self.seen.state.lock().unwrap().dropped += 1;
	}
}

/// An observer like any user would write it: what closes it is the library
#[derive(RxObserver)]
#[rx_in(V)]
#[rx_in_error(E)]
pub struct Plain {
	seen: Seen,
	hook: Option<Hook>,
}

impl Plain {
	pub fn new(name: u32, hook: Option<Hook>) -> (Plain, Seen) {
		let seen = Seen { name, state: Arc::default() };
		(Plain { seen: seen.clone(), hook }, seen)
	}

	fn observe(&mut self, sig: Sig) {
		ev!("observer {} <- {:?}", self.seen.name, sig);
		let nth = {
			let mut state = self.seen.state.lock().unwrap();
			if state.closed {
				state.late.push(sig.clone());
			} else {
				state.log.push(sig.clone());
			}
			state.closed |= sig.is_terminal();
			state.log.len()
		};
		if let Some(hook) = self.hook.clone() {
			hook(&sig, nth);
		}
	}
}

impl rx_core_common::RxObserver for Plain {
	fn next(&mut self, next: V) {
		self.observe(Sig::Next(next));
	}
	fn error(&mut self, error: E) {
		self.observe(Sig::Error(error));
	}
	fn complete(&mut self) {
		self.observe(Sig::Complete);
	}
}

/// Counts how often something was called
#[derive(Clone, Default)]
pub struct Tally(Arc<AtomicU64>);

impl Tally {
	pub fn hit(&self) {
		self.0.fetch_add(1, Ordering::Relaxed);
	}
	pub fn get(&self) -> u64 {
		self.0.load(Ordering::Relaxed)
	}
	/// Something to call
	pub fn on(&self) -> impl Fn() + Clone + Send + Sync + use<> {
		let tally = self.clone();
		move || tally.hit()
	}
}

/// An observable of any shape, without any locking of its own
#[derive(RxObservable, Clone)]
#[rx_out(V)]
#[rx_out_error(E)]
pub struct Dyn {
	subscribe: Arc<dyn Fn(ErasedSubscriber<V, E>) -> ErasedSubscription + Send + Sync>,
}

impl Dyn {
	pub fn new<O>(observable: O) -> Dyn
	where
		O: 'static + Observable<Out = V, OutError = E> + Clone + Send + Sync,
	{
		// A copy for every subscription
		let observable = Mutex::new(observable);
		Dyn::custom(move |destination| {
			let mut observable = observable.lock().unwrap().clone();
			ErasedSubscription::new(observable.subscribe(destination))
		})
	}

	/// Made anew for every subscription
	pub fn make<O>(make: impl Fn() -> O + Send + Sync + 'static) -> Dyn
	where
		O: 'static + Observable<Out = V, OutError = E>,
	{
		Dyn::custom(move |destination| ErasedSubscription::new(make().subscribe(destination)))
	}

	pub fn custom(f: impl Fn(ErasedSubscriber<V, E>) -> ErasedSubscription + Send + Sync + 'static) -> Dyn {
		Dyn { subscribe: Arc::new(f) }
	}

	/// Counts its subscriptions, and how many of them were released
	pub fn tracked(self, track: &Track) -> Dyn {
		let track = track.clone();
		let mut inner = self;
		inner.subscribe = {
			let f = inner.subscribe.clone();
			Arc::new(move |mut destination| {
				let release = track.acquire();
				destination.add_teardown(Teardown::new(release));
				f(destination)
			})
		};
		inner
	}
}

impl Observable for Dyn {
	type Subscription<Destination>
		= ErasedSubscription
	where
		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;

	fn subscribe<Destination>(&mut self, destination: Destination) -> Self::Subscription<Destination::Upgraded>
	where
		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError> + Send + Sync,
	{
		(self.subscribe)(ErasedSubscriber::new(destination.upgrade()))
	}
}

/// Counts resources acquired and released
#[derive(Clone)]
pub struct Track {
	pub name: u32,
	state: Arc<Mutex<TrackState>>,
}

#[derive(Default)]
struct TrackState {
	acquired: u32,
	released: Vec<u32>,
	max_active: u32,
}

impl Track {
	pub fn new(name: u32) -> Track {
		Track { name, state: Arc::default() }
	}
	/// Returns what has to be called to release it
	pub fn acquire(&self) -> impl FnOnce() + Send + Sync + 'static {
		let track = self.clone();
		let n = {
			let mut state = self.state.lock().unwrap();
			state.released.push(0);
			state.acquired += 1;
			let active = state.released.iter().filter(|r| **r == 0).count() as u32;
			state.max_active = state.max_active.max(active);
			state.released.len() - 1
		};
		ev!("resource {}.{n} acquired", self.name);
		move || {
			ev!("resource {}.{n} released", track.name);
			track.state.lock().unwrap().released[n] += 1;
		}
	}
	pub fn acquired(&self) -> u32 {
		self.state.lock().unwrap().acquired
	}
	pub fn active(&self) -> u32 {
		self.state.lock().unwrap().released.iter().filter(|r| **r == 0).count() as u32
	}
	pub fn max_active(&self) -> u32 {
		self.state.lock().unwrap().max_active
	}
	pub fn released_twice(&self) -> bool {
		self.state.lock().unwrap().released.iter().any(|r| *r > 1)
	}
}

pub type AnySubscription = ErasedSubscription;

/// Where subscriptions are kept while the world is running. Never locked
/// while the library is called.
#[derive(Clone, Default)]
pub struct Slots {
	slots: Arc<Mutex<BTreeMap<u32, AnySubscription>>>,
}

impl Slots {
	pub fn put(&self, id: u32, subscription: AnySubscription) {
		let old = self.slots.lock().unwrap().insert(id, subscription);
		drop(old);
	}
	pub fn take(&self, id: u32) -> Option<AnySubscription> {
		self.slots.lock().unwrap().remove(&id)
	}
	pub fn ids(&self) -> Vec<u32> {
		self.slots.lock().unwrap().keys().copied().collect()
	}
	pub fn clear(&self) {
		for id in self.ids() {
			let subscription = self.take(id);
			drop(subscription);
		}
	}
}
