//! R15: retry and catch.
use crate::common::*;
use std::collections::VecDeque;

/// What subscribing to the source once does
#[derive(Clone, Debug)]
struct Plan {
	values: Vec<V>,
	then: Then,
}

#[derive(Clone, Debug, PartialEq)]
enum Then {
	End(Sig),
	/// A subject only this subscription has
	Own,
	/// A subject every such subscription shares, values from 80 are errors
	Shared,
}

impl Plan {
	fn draw() -> Plan {
		Plan {
			values: (0..draw(3)).map(|_| draw(80) as V).collect(),
			then: match weighted(&[5, 1, 1, 4, 4]) {
				0 => Then::End(Sig::Error(draw(9) as E)),
				1 => Then::End(Sig::Complete),
				2 => Then::End(Sig::Unsub),
				3 => Then::Own,
				_ => Then::Shared,
			},
		}
	}
}

#[derive(Clone, Copy, Debug)]
enum Act {
	/// Into the subject of the last subscription, or the shared one
	Push(bool, V),
	Complete(bool),
	Error(bool, E),
	UnsubscribeSource(bool),
	Unsubscribe,
}

impl Act {
	fn draw() -> Act {
		let shared = chance(1, 2);
		match weighted(&[10, 1, 4, 1, 1]) {
			0 => Act::Push(shared, draw(100) as V),
			1 => Act::Complete(shared),
			2 => Act::Error(shared, 10 + draw(9) as E),
			3 => Act::UnsubscribeSource(shared),
			_ => Act::Unsubscribe,
		}
	}
}

// ───────────────────────── the model

#[derive(Default, Clone)]
struct Subject {
	finished: Option<Sig>,
	busy: bool,
	queue: VecDeque<Push>,
}

#[derive(Clone)]
enum Push {
	Sig(Sig),
	/// An attempt starts to listen
	Join(usize),
	/// The subscription to what this attempt listens to is unsubscribed
	Leave(usize),
}

#[derive(Clone)]
struct Model {
	/// Or caught
	retries: Option<usize>,
	/// Known findings: an error that isn't emitted while subscribing is only let through after one
	/// more attempt, and a source that unsubscribes right after it errored takes what replaces it
	/// along
	quirk: bool,
	plans: Vec<Plan>,
	take: Option<usize>,
	hooks: BTreeMap<usize, Act>,

	/// The shared one, then those of attempts
	subjects: BTreeMap<usize, Subject>,
	last_own: usize,
	attempts: usize,
	/// The attempt that is listened to
	current: usize,
	open: BTreeMap<usize, bool>,
	/// The current one got as far as subscribing to its subject
	listening: bool,
	/// The first one did
	joined: bool,
	failed_attempts: usize,
	/// Being subscribed to
	subscribing: bool,
	caught: Option<E>,

	out: Vec<Sig>,
	held: bool,
	/// Unsubscribed, but not yet closed
	cancelled: bool,
	emitting: bool,
	leaving: bool,
	closed: bool,
}

const SHARED: usize = 0;

impl Model {
	fn act(&mut self, act: Act) {
		let which = |shared| if shared { SHARED } else { self.last_own };
		match act {
			Act::Push(s, v) => self.push(which(s), Push::Sig(Sig::Next(v))),
			Act::Complete(s) => self.push(which(s), Push::Sig(Sig::Complete)),
			Act::Error(s, e) => self.push(which(s), Push::Sig(Sig::Error(e))),
			Act::UnsubscribeSource(s) => self.push(which(s), Push::Sig(Sig::Unsub)),
			Act::Unsubscribe => {
				if self.held {
					self.unsubscribe();
				}
			}
		}
	}

	fn unsubscribe(&mut self) {
		let attempt = if self.retries.is_some() {
			self.cancelled = true;
			self.current
		} else {
			// Catch is a part of the subscription to its source
			1
		};
		match self.listens_to(attempt) {
			Some(s) if attempt != self.current || self.listening => self.push(s, Push::Leave(attempt)),
			_ => self.leave(),
		}
	}

	fn leave(&mut self) {
		// Whoever is emitting gets to finish with that first
		match self.listens_to(self.current) {
			Some(s) if self.retries.is_none() && self.listening && self.current > 1 => {
				self.push(s, Push::Leave(self.current));
			}
			_ if self.emitting => self.leaving = true,
			_ => self.close(),
		}
	}

	fn push(&mut self, s: usize, mut push: Push) {
		// Catch stays subscribed to a source that errored
		let stays = self.retries.is_none() && self.attempts > 1 && self.listens_to(1) == Some(s) && self.joined;
		let Some(subject) = self.subjects.get_mut(&s) else {
			return;
		};
		if let Push::Sig(sig) = &push {
			let leaves = stays && *sig == Sig::Unsub;
			if subject.finished.is_some() && !leaves {
				return;
			}
			if !matches!(sig, Sig::Next(_)) && subject.finished.is_none() {
				subject.finished = Some(sig.clone());
			}
			if leaves {
				push = Push::Leave(1);
			}
		}
		if subject.busy {
			subject.queue.push_back(push);
			return;
		}
		subject.busy = true;
		let mut next = Some(push);
		while let Some(push) = next {
			match push {
				Push::Leave(attempt) if attempt == self.current => self.close(),
				Push::Leave(_) => self.leave(),
				Push::Join(attempt) => {
					if attempt == self.current {
						self.listening = true;
						self.joined |= attempt == 1;
					}
				}
				Push::Sig(sig) => {
					let listens = self.current;
					if self.listening && self.open.get(&listens) == Some(&true) && self.listens_to(listens) == Some(s) {
						self.signal(listens, sig);
					}
				}
			}
			next = self.subjects.get_mut(&s).unwrap().queue.pop_front();
		}
		self.subjects.get_mut(&s).unwrap().busy = false;
	}

	fn listens_to(&self, attempt: usize) -> Option<usize> {
		match self.plans[(attempt - 1).min(self.plans.len() - 1)].then {
			Then::End(_) => None,
			Then::Own => Some(attempt),
			Then::Shared => Some(SHARED),
		}
	}

	/// What an attempt emits
	fn signal(&mut self, attempt: usize, mut sig: Sig) {
		if self.open.get(&attempt) != Some(&true) {
			return;
		}
		if let Sig::Next(v) = sig
			&& v >= 80
		{
			sig = Sig::Error(v as E);
		}
		match sig {
			Sig::Next(_) if self.cancelled => {}
			Sig::Next(v) => self.emit(v),
			Sig::Error(e) => {
				self.open.insert(attempt, false);
				if self.cancelled {
					self.close();
				} else if self.closed {
				} else if self.subscribing {
					self.caught = Some(e);
				} else {
					self.retry(e);
				}
			}
			_ if self.cancelled => self.close(),
			sig => {
				self.open.insert(attempt, false);
				self.finish(sig);
			}
		}
	}

	/// Until an attempt doesn't fail
	fn retry(&mut self, mut error: E) {
		let Some(max) = self.retries else {
			if self.attempts == 1 {
				// The error mapper is called
				if let Some(e) = self.attempt() {
					self.finish(Sig::Error(e));
				}
			} else {
				self.finish(Sig::Error(error));
			}
			return;
		};
		let extra = self.quirk && self.attempts > 0;
		if extra {
			count("probe:retried_later");
		}
		while self.failed_attempts < max {
			self.failed_attempts += 1;
			match self.attempt() {
				Some(e) => error = e,
				None => return,
			}
		}
		if extra && !self.closed {
			self.failed_attempts += 1;
			self.attempt();
			let last = self.current;
			self.finish(Sig::Error(error));
			self.open.insert(last, false);
			return;
		}
		self.finish(Sig::Error(error));
	}

	/// Whether it failed
	fn attempt(&mut self) -> Option<E> {
		self.attempts += 1;
		let attempt = self.attempts;
		self.current = attempt;
		self.open.insert(attempt, true);
		let plan = self.plans[(attempt - 1).min(self.plans.len() - 1)].clone();
		if plan.then == Then::Own {
			self.subjects.insert(attempt, Subject::default());
			self.last_own = attempt;
		}
		self.subscribing = true;
		self.listening = false;
		for v in plan.values {
			self.signal(attempt, Sig::Next(v));
		}
		match (plan.then, self.listens_to(attempt)) {
			(Then::End(sig), _) => self.signal(attempt, sig),
			(_, None) => {}
			(_, Some(s)) => match self.subjects[&s].finished.clone() {
				Some(sig) => self.signal(attempt, sig),
				None => self.push(s, Push::Join(attempt)),
			},
		}
		self.subscribing = false;
		if self.cancelled {
			self.close();
		}
		if self.closed {
			self.open.insert(attempt, false);
		}
		self.caught.take()
	}

	fn emit(&mut self, v: V) {
		if self.closed {
			return;
		}
		self.out.push(Sig::Next(v));
		let values = self.out.len();
		self.emitting = true;
		if let Some(act) = self.hooks.get(&values).copied() {
			self.act(act);
		}
		self.emitting = false;
		if self.take == Some(values) {
			self.finish(Sig::Complete);
		}
		if self.leaving {
			self.close();
		}
	}

	fn finish(&mut self, sig: Sig) {
		if !self.closed {
			if sig != Sig::Unsub {
				self.out.push(sig);
			}
			self.close();
		}
	}

	fn close(&mut self) {
		self.closed = true;
		self.open.insert(self.current, false);
	}

	fn subscribe(&mut self) {
		if self.take == Some(0) {
			self.finish(Sig::Complete);
		}
		match self.attempt() {
			None => {}
			Some(e) => match self.retries {
				None => {
					self.retry(e);
					if self.quirk && self.listens_to(1).is_some() {
						self.close();
					}
				}
				Some(max) => {
					let mut error = e;
					while self.failed_attempts < max {
						self.failed_attempts += 1;
						match self.attempt() {
							Some(e) => error = e,
							None => return,
						}
					}
					self.finish(Sig::Error(error));
				}
			},
		}
	}
}

// ───────────────────────── the real thing

struct World_ {
	shared: PublishSubject<V, E>,
	owns: Mutex<BTreeMap<usize, PublishSubject<V, E>>>,
	slots: Slots,
}

impl World_ {
	fn subject(&self, shared: bool) -> Option<PublishSubject<V, E>> {
		if shared {
			Some(self.shared.clone())
		} else {
			self.owns.lock().unwrap().last_key_value().map(|(_, s)| s.clone())
		}
	}

	fn act(&self, act: Act) {
		match act {
			Act::Push(s, v) => self.subject(s).into_iter().for_each(|mut s| s.next(v)),
			Act::Complete(s) => self.subject(s).into_iter().for_each(|mut s| s.complete()),
			Act::Error(s, e) => self.subject(s).into_iter().for_each(|mut s| s.error(e)),
			Act::UnsubscribeSource(s) => self.subject(s).into_iter().for_each(|mut s| s.unsubscribe()),
			Act::Unsubscribe => {
				if let Some(mut subscription) = self.slots.take(0) {
					subscription.unsubscribe();
					self.slots.put(0, subscription);
				}
			}
		}
	}
}

fn values_then(values: Vec<V>, end: Sig) -> Dyn {
	Dyn::make(move || {
		let (values, end) = (values.clone(), end.clone());
		create_observable(move |destination: &mut dyn Subscriber<In = V, InError = E>| {
			for v in values {
				if destination.is_closed() {
					return;
				}
				destination.next(v);
			}
			if destination.is_closed() {
				return;
			}
			match end {
				Sig::Error(e) => destination.error(e),
				Sig::Complete => destination.complete(),
				Sig::Unsub => destination.unsubscribe(),
				_ => {}
			}
		})
	})
}

/// Every subscription follows the next plan
fn source(plans: Vec<Plan>, world: Arc<World_>, track: Track) -> Dyn {
	let attempts = AtomicUsize::new(0);
	Dyn::custom(move |destination| {
		let attempt = attempts.fetch_add(1, Ordering::Relaxed) + 1;
		let plan = plans[(attempt - 1).min(plans.len() - 1)].clone();
		ev!("attempt {attempt} {plan:?}");
		let mut inner = match plan.then {
			Then::End(sig) => values_then(plan.values, sig),
			Then::Own | Then::Shared => {
				let subject = if plan.then == Then::Own {
					let subject = PublishSubject::<V, E>::default();
					world.owns.lock().unwrap().insert(attempt, subject.clone());
					subject
				} else {
					world.shared.clone()
				};
				let values = plan.values;
				Dyn::custom(move |mut destination| {
					for v in &values {
						destination.next(*v);
					}
					let mut hot = subject.clone().on_next(|v: &V, destination: &mut dyn Subscriber<In = V, InError = E>| {
						if *v >= 80 {
							destination.error(*v as E);
						}
						*v < 80
					});
					ErasedSubscription::new(hot.subscribe(destination))
				})
			}
		}
		.tracked(&track);
		inner.subscribe(destination)
	})
}

fn run(retries: Option<usize>, plans: Vec<Plan>, take: Option<usize>, hooks: BTreeMap<usize, Act>, steps: u32, lenient: bool) {
	ev!("retries {retries:?} of {plans:?} take {take:?} hooks {hooks:?}");
	let world = Arc::new(World_ { shared: PublishSubject::default(), owns: Mutex::default(), slots: Slots::default() });
	let track = Track::new(0);
	let down = Tally::default();
	let retried = source(plans.clone(), world.clone(), track.clone());
	let mapped = Tally::default();
	let mut pipeline = match retries {
		Some(n) => Dyn::make(move || retried.clone().retry(n)),
		None => {
			let mapped = mapped.clone();
			Dyn::make(move || {
				let (next, mapped) = (retried.clone(), mapped.clone());
				retried.clone().catch(move |_| {
					mapped.hit();
					next
				})
			})
		}
	};
	if let Some(n) = take {
		let source = pipeline;
		pipeline = Dyn::make(move || source.clone().take(n));
	}
	{
		let (source, down) = (pipeline, down.clone());
		pipeline = Dyn::make(move || source.clone().finalize(down.on()));
	}
	let hook: Option<Hook> = (!hooks.is_empty()).then(|| {
		let (hooks, world) = (hooks.clone(), world.clone());
		let values = AtomicUsize::new(0);
		Arc::new(move |sig: &Sig, _: usize| {
			if matches!(sig, Sig::Next(_)) {
				let nth = values.fetch_add(1, Ordering::Relaxed) + 1;
				if let Some(action) = hooks.get(&nth) {
					count("fault:reentrant");
					ev!("hook {action:?}");
					world.act(*action);
				}
			}
		}) as Hook
	});
	let (observer, seen) = Plain::new(0, hook);
	let mut observer = Some(observer);
	let model = Model {
		retries,
		quirk: false,
		plans,
		take,
		hooks,
		subjects: [(SHARED, Subject::default())].into(),
		last_own: usize::MAX,
		attempts: 0,
		current: 0,
		open: BTreeMap::new(),
		listening: false,
		joined: false,
		failed_attempts: 0,
		subscribing: false,
		caught: None,
		out: vec![],
		held: false,
		cancelled: false,
		emitting: false,
		leaving: false,
		closed: false,
	};
	// Either of them
	let mut models = vec![model.clone(), Model { quirk: true, ..model }];
	let mut subscribed = false;
	for n in 0..=steps {
		let last = n == steps;
		if observer.is_some() && (n > 2 || last || chance(4, 5)) {
			let observer = observer.take().unwrap();
			ev!("subscribe");
			let Some(subscription) = step("subscribe", || ErasedSubscription::new(pipeline.subscribe(observer))) else {
				return;
			};
			world.slots.put(0, subscription);
			for model in &mut models {
				model.subscribe();
				model.held = true;
			}
			subscribed = true;
		} else if last {
			ev!("the end");
			models.iter_mut().for_each(|model| model.act(Act::Unsubscribe));
			if chance(1, 2) {
				step("unsubscribe", || world.act(Act::Unsubscribe));
			} else if let Some(subscription) = world.slots.take(0) {
				step("drop", || drop(subscription));
			}
		} else {
			let action = Act::draw();
			if matches!(action, Act::Unsubscribe) {
				if chance(2, 3) {
					continue;
				}
				count("fault:unsubscribe");
			}
			ev!("{action:?}");
			models.iter_mut().for_each(|model| model.act(action));
			step("act", || world.act(action));
		}
		if violated() {
			return;
		}
		seen.check_grammar("what is retried");
		let log = seen.log();
		let closed = down.get() > 0;
		let explains = |model: &Model| {
			model.out == log && model.attempts as u32 == track.acquired() && (model.closed && subscribed) == closed
		};
		let accepted = if lenient { models.len() } else { 1 };
		if !models[..accepted].iter().any(explains) {
			let model = &models[0];
			violation(
				if models.iter().any(explains) {
					if retries.is_some() { "one-attempt-more" } else { "closed-with-source" }
				} else if model.out == log && model.attempts as u32 == track.acquired() {
					if closed { "closed-early" } else { "never-closed" }
				} else if model.out == log {
					"attempts"
				} else if model.out.starts_with(&log) {
					"signals-missing"
				} else if log.starts_with(&model.out) {
					"signals-unexpected"
				} else {
					"signals-different"
				},
				format!(
					"observed {log:?} from {} attempts, closed: {closed}, instead of {:?} from {}, closed: {}",
					track.acquired(),
					model.out,
					model.attempts,
					model.closed && subscribed
				),
			);
			return;
		}
		if lenient {
			models.retain(explains);
		}
		let model = &models[0];
		let closed = model.closed && subscribed;
		check!(down.get() == closed as u64, "teardown", "closed: {closed}, but it was released {} times", down.get());
		// What is caught shares its resources with what replaces it
		let shares = |(attempt, open): (&usize, &bool)| *open || (retries.is_none() && *attempt == 1 && !closed && subscribed);
		let open = model.open.iter().filter(|entry| shares(*entry)).count() as u32;
		check!(
			track.active() == open && !track.released_twice(),
			"upstream-teardown",
			"{open} attempts are going on, but {} weren't released, released twice: {}",
			track.active(),
			track.released_twice()
		);
		if let Some(subscription) = world.slots.take(0) {
			let says = subscription.is_closed();
			world.slots.put(0, subscription);
			check!(says == closed, "is-closed", "the subscription says closed: {says} instead of {closed}");
		}
		if violated() {
			return;
		}
	}
	let model = &models[0];
	if model.attempts > 1 {
		count("probe:retried");
	}
	if model.out.len() > 2 {
		count("probe:signals");
	}
}

fn draw_hooks() -> BTreeMap<usize, Act> {
	let mut hooks = BTreeMap::new();
	if chance(1, 3) {
		for _ in 0..draw_range(1, 3) {
			hooks.insert(draw_range(1, 6) as usize, Act::draw());
		}
	}
	hooks
}

fn retrying() {
	let plans = (0..draw_range(1, 7)).map(|_| Plan::draw()).collect();
	let take = chance(1, 4).then(|| draw(6) as usize);
	run(Some(draw(5) as usize), plans, take, draw_hooks(), draw_range(3, 24), true);
}

fn catching() {
	let plans = (0..draw_range(2, 3)).map(|_| Plan::draw()).collect();
	let take = chance(1, 4).then(|| draw(6) as usize);
	run(None, plans, take, draw_hooks(), draw_range(3, 20), true);
}

fn caught_at_once() {
	// The first subject is finished before it's subscribed to
	let plans = vec![Plan { values: vec![1], then: Then::Shared }, Plan { values: vec![2], then: Then::Own }];
	run(None, plans, None, BTreeMap::new(), draw_range(3, 8), false);
}

fn last_attempt() {
	let plans = (0..6).map(|n| Plan { values: vec![n], then: Then::Own }).collect();
	run(Some(draw(3) as usize), plans, None, BTreeMap::new(), draw_range(3, 8), false);
}

/// One retried observable, subscribed to more than once. `nested`: also while it's being subscribed to
fn many(nested: bool) {
	let max = draw(3) as usize;
	let prefix: Vec<V> = (0..draw_range(nested as u32, 2)).map(|n| n as V).collect();
	let shared = PublishSubject::<V, E>::default();
	let source = {
		let (shared, prefix) = (shared.clone(), prefix.clone());
		Dyn::custom(move |mut destination| {
			for v in &prefix {
				destination.next(*v);
			}
			let mut hot = shared.clone().on_next(|v: &V, destination: &mut dyn Subscriber<In = V, InError = E>| {
				if *v >= 80 {
					destination.error(*v as E);
				}
				*v < 80
			});
			ErasedSubscription::new(hot.subscribe(destination))
		})
	};
	let retried = Arc::new(Mutex::new(source.retry(max)));
	let observers = draw_range(2, 3);
	// The first one does this when it observes its nth value
	let hook_at = draw_range(1, 4) as usize;
	let act: u32 = if nested { 1 + draw(2) } else { 0 };
	ev!("retry {max} of {prefix:?}, {observers} observers, the first acts {act} at {hook_at}");
	let slots = Slots::default();
	let seen = Arc::new(Mutex::new(Vec::<Seen>::new()));
	let subscribe = {
		let (retried, slots, seen) = (retried.clone(), slots.clone(), seen.clone());
		move |id: u32, hook: Option<Hook>| {
			let (observer, s) = Plain::new(id, hook);
			seen.lock().unwrap().push(s);
			ev!("subscribe {id}");
			let mut own = retried.lock().unwrap().clone();
			let subscription = own.subscribe(observer);
			slots.put(id, ErasedSubscription::new(subscription));
		}
	};
	let acted = Arc::new(AtomicBool::new(false));
	for id in 0..observers {
		let hook: Option<Hook> = (id == 0 && nested).then(|| {
			let (subscribe, acted, values, shared) = (subscribe.clone(), acted.clone(), AtomicUsize::new(0), shared.clone());
			Arc::new(move |sig: &Sig, _: usize| {
				if matches!(sig, Sig::Next(_)) && values.fetch_add(1, Ordering::Relaxed) + 1 == hook_at {
					count("fault:reentrant");
					acted.store(true, Ordering::Relaxed);
					ev!("hook {act}");
					match act {
						1 => {
							if let Outcome::Panicked(message) = guarded(|| subscribe(9, None)) {
								violation("nested-subscription-panics", message);
							}
						}
						_ => shared.clone().next(90),
					}
				}
			}) as Hook
		});
		if step("subscribe", || subscribe(id, hook)).is_none() {
			return;
		}
		if chance(1, 3) && step("push", || shared.clone().next(50 + id as V)).is_none() {
			return;
		}
	}
	let errors = draw(4);
	for _ in 0..errors {
		let v = pick(&[81, 82, 60, 83, 61]);
		if step("push", || shared.clone().next(v)).is_none() {
			return;
		}
	}
	// Whoever hasn't been let go of the last error listens
	step("push", || shared.clone().next(70));
	step("push", || shared.clone().next(71));
	if violated() {
		return;
	}
	count("probe:several");
	for s in seen.lock().unwrap().clone() {
		s.check_grammar("what is retried for several");
		let log = s.log();
		let ended = log.iter().any(Sig::is_terminal);
		check!(
			ended || log.last() == Some(&Sig::Next(71)),
			"retry-lost",
			"observer {} was neither resubscribed nor told about the error: {log:?}",
			s.name
		);
		// Every attempt starts with the prefix
		if !prefix.is_empty() {
			let attempts = log.iter().filter(|sig| **sig == Sig::Next(0)).count();
			check!(
				ended || attempts <= max + 1,
				"attempts",
				"observer {} is on attempt {attempts} of {}: {log:?}",
				s.name,
				max + 1
			);
			check!(!ended || attempts >= max + 1, "attempts", "observer {} gave up after attempt {attempts} of {}: {log:?}", s.name, max + 1);
		}
	}
	slots.clear();
}

fn several() {
	many(false);
}

fn several_nested() {
	many(true);
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R15",
		worlds: vec![
			World { name: "retrying", run: retrying, quick: 80_000, thorough: 4_000_000 },
			World { name: "catching", run: catching, quick: 50_000, thorough: 2_000_000 },
			World { name: "several", run: several, quick: 20_000, thorough: 500_000 },
			World { name: "several_nested", run: several_nested, quick: 300, thorough: 3_000 },
			World { name: "caught_at_once", run: caught_at_once, quick: 300, thorough: 3_000 },
			World { name: "last_attempt", run: last_attempt, quick: 300, thorough: 3_000 },
		],
		rule: "after every step the signals observed, how often the source was subscribed to, which of those subscriptions were released, \
			the release of the whole, and whether its subscription is closed are compared with a reference model of retry and catch",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["probe:retried", "probe:several", "probe:retried_later", "probe:signals", "fault:reentrant", "fault:unsubscribe"],
	});
}
