//! R09: observables of observables, used from their own callbacks and from
//! several threads.
use crate::common::*;
use crate::flatten::{Form, Kind};

/// One subscription to an inner observable
#[derive(Default)]
struct Instance {
	at: usize,
	/// What it passed on
	values: Vec<V>,
	ended: bool,
	released: u32,
}

#[derive(Default)]
struct Book {
	instances: Vec<Instance>,
	active: usize,
	max_active: usize,
	errored: bool,
}

#[derive(Clone)]
struct Inner {
	subject: PublishSubject<V, E>,
	/// Emitted while subscribing
	cold: Vec<V>,
	/// Ends right after that
	cold_end: Option<Sig>,
	book: Arc<Mutex<Book>>,
	at: usize,
}

#[derive(RxObserver, Clone)]
#[rx_in(V)]
#[rx_in_error(E)]
struct Recorder {
	book: Arc<Mutex<Book>>,
	instance: usize,
}

impl Recorder {
	fn end(&self, error: bool) {
		let mut book = self.book.lock().unwrap();
		book.errored |= error;
		if !std::mem::replace(&mut book.instances[self.instance].ended, true) {
			book.active -= 1;
		}
	}
}

impl rx_core_common::RxObserver for Recorder {
	fn next(&mut self, next: V) {
		self.book.lock().unwrap().instances[self.instance].values.push(next);
	}
	fn error(&mut self, _error: E) {
		self.end(true);
	}
	fn complete(&mut self) {
		self.end(false);
	}
}

impl Inner {
	fn observable(&self) -> Dyn {
		let inner = self.clone();
		Dyn::make(move || {
			let instance = {
				let mut book = inner.book.lock().unwrap();
				book.instances.push(Instance { at: inner.at, ..Instance::default() });
				book.active += 1;
				book.max_active = book.max_active.max(book.active);
				ev!("subscribed to {} as {}", inner.at, book.instances.len() - 1);
				book.instances.len() - 1
			};
			let recorder = Recorder { book: inner.book.clone(), instance };
			let tag = (instance as V + 1) * 10_000;
			let released = {
				let recorder = recorder.clone();
				move || {
					recorder.end(false);
					ev!("released {instance}");
					recorder.book.lock().unwrap().instances[instance].released += 1;
				}
			};
			let cold = inner.cold.clone();
			let end = inner.cold_end.clone();
			let source = if cold.is_empty() && end.is_none() {
				Dyn::new(inner.subject.clone())
			} else if let Some(end) = end {
				Dyn::new(create_observable(move |destination: &mut dyn Subscriber<In = V, InError = E>| {
					for v in cold {
						destination.next(v);
					}
					match end {
						Sig::Error(e) => destination.error(e),
						_ => destination.complete(),
					}
				}))
			} else {
				Dyn::new(inner.subject.clone().start_with(cold[0]))
			};
			source.map(move |v| v + tag).tap(recorder).finalize(released)
		})
	}
}

#[derive(Clone, Debug)]
enum Op {
	Outer(V),
	Inner(usize),
	EndInner(usize),
	FailInner(usize),
	EndOuter,
	Unsubscribe,
	IsClosed,
	AddTeardown,
}

struct Live {
	outer: PublishSubject<V, E>,
	inners: Vec<Inner>,
	values: AtomicU64,
	slots: Slots,
	added: Mutex<Vec<Tally>>,
	unsubscribed: AtomicBool,
	failed: AtomicBool,
}

impl Live {
	fn issue(&self, op: &Op) {
		ev!("{op:?}");
		match op {
			Op::Outer(v) => self.outer.clone().next(*v),
			Op::Inner(at) => {
				let v = self.values.fetch_add(1, Ordering::Relaxed) as V + 1;
				self.inners[*at].subject.clone().next(v);
			}
			Op::EndInner(at) => self.inners[*at].subject.clone().complete(),
			Op::FailInner(at) => {
				self.failed.store(true, Ordering::Relaxed);
				self.inners[*at].subject.clone().error(7);
			}
			Op::EndOuter => self.outer.clone().complete(),
			Op::Unsubscribe => {
				if let Some(mut subscription) = self.slots.take(0) {
					count("fault:unsubscribe");
					self.unsubscribed.store(true, Ordering::Relaxed);
					subscription.unsubscribe();
					self.slots.put(0, subscription);
				}
			}
			Op::IsClosed => {
				if let Some(subscription) = self.slots.take(0) {
					subscription.is_closed();
					self.slots.put(0, subscription);
				}
			}
			Op::AddTeardown => {
				if let Some(mut subscription) = self.slots.take(0) {
					let tally = Tally::default();
					subscription.add_teardown(Teardown::new(tally.on()));
					self.slots.put(0, subscription);
					self.added.lock().unwrap().push(tally);
				}
			}
		}
		ev!("done");
	}
}

fn draw_op(inners: u32, faults: u32) -> Op {
	let at = draw(inners) as usize;
	match weighted(&[8, 14, 4, faults, 1, faults, faults, faults]) {
		0 => Op::Outer(draw(inners) as V),
		1 => Op::Inner(at),
		2 => Op::EndInner(at),
		3 => Op::FailInner(at),
		4 => Op::EndOuter,
		5 => Op::Unsubscribe,
		6 => Op::IsClosed,
		_ => Op::AddTeardown,
	}
}

struct Setup {
	live: Arc<Live>,
	book: Arc<Mutex<Book>>,
	seen: Seen,
	kind: Kind,
	upstream: Tally,
	downstream: Tally,
}

fn setup(script: BTreeMap<usize, Vec<Op>>, inners: u32, cold: bool) -> Option<Setup> {
	let kind = Kind::draw();
	let form = pick(&[Form::Map, Form::All]);
	let book: Arc<Mutex<Book>> = Arc::default();
	let inners: Vec<Inner> = (0..inners as usize)
		.map(|at| {
			let mut inner =
				Inner { subject: PublishSubject::default(), cold: vec![], cold_end: None, book: book.clone(), at };
			if cold {
				inner.cold = (0..draw(3)).map(|n| 100 * (at as V + 1) + n as V).collect();
				if chance(1, 2) {
					inner.cold_end = Some(if chance(1, 8) { Sig::Error(3) } else { Sig::Complete });
				} else {
					inner.cold.truncate(1);
				}
			}
			inner
		})
		.collect();
	ev!("{kind:?} {form:?} of {:?} script {script:?}", inners.iter().map(|i| (&i.cold, &i.cold_end)).collect::<Vec<_>>());
	let live = Arc::new(Live {
		outer: PublishSubject::default(),
		inners: inners.clone(),
		values: AtomicU64::new(0),
		slots: Slots::default(),
		added: Mutex::default(),
		unsubscribed: AtomicBool::new(false),
		failed: AtomicBool::new(false),
	});
	let (upstream, downstream) = (Tally::default(), Tally::default());
	let source = Dyn::new(live.outer.clone().finalize(upstream.on()));
	let pipeline = kind.build(form, source, move |v| inners[v.rem_euclid(inners.len() as V) as usize].observable());
	let mut pipeline = Dyn::new(pipeline.finalize(downstream.on()));
	let weak = Arc::downgrade(&live);
	let hook: Hook = Arc::new(move |_, nth| {
		if let (Some(ops), Some(live)) = (script.get(&nth), weak.upgrade()) {
			for op in ops {
				count("fault:reentrant_request");
				live.issue(op);
			}
		}
	});
	let (observer, seen) = Plain::new(0, Some(hook));
	let subscription = step("subscribe", || ErasedSubscription::new(pipeline.subscribe(observer)))?;
	live.slots.put(0, subscription);
	Some(Setup { live, book, seen, kind, upstream, downstream })
}

fn finish(setup: &Setup) {
	let Setup { live, book, seen, kind, upstream, downstream } = setup;
	seen.check_grammar("a flattening operator");
	let log = seen.log();
	let by_instance = |instance: usize| -> Vec<V> {
		let tag = instance as V + 1;
		seen.values().into_iter().filter(|v| v / 10_000 == tag).collect()
	};
	let compare = |exact: bool| {
		let book = book.lock().unwrap();
		for (n, instance) in book.instances.iter().enumerate() {
			let got = by_instance(n);
			let ok = if exact { got == instance.values } else { instance.values.starts_with(&got) };
			check!(
				ok,
				"wrong-values",
				"subscription {n} to inner {} passed on {:?}, but {got:?} was observed",
				instance.at,
				instance.values
			);
			check!(instance.released <= 1, "released-twice", "inner subscription {n} was released {} times", instance.released);
		}
		// A subscription that was replaced is only cancelled once whatever it
		// is in the middle of is finished
		if *kind != Kind::Switch {
			check!(
				book.max_active <= kind.limit(),
				"over-limit",
				"{} inner observables were active at once, the limit is {}",
				book.max_active,
				kind.limit()
			);
		}
	};
	let is_closed = || {
		let subscription = live.slots.take(0)?;
		let closed = subscription.is_closed();
		live.slots.put(0, subscription);
		Some(closed)
	};
	let ended = seen.terminal().is_some() || live.unsubscribed.load(Ordering::Relaxed);
	compare(!ended);
	if violated() {
		return;
	}
	check!(ended == is_closed().unwrap_or(ended), "is-closed", "ended: {ended}, but is_closed says {:?}: {log:?}", is_closed());
	if ended {
		released(setup, "once it ended");
	}
	// Whatever happened until now, it must be able to finish
	step("complete the outer source", || live.outer.clone().complete());
	let rounds = book.lock().unwrap().instances.len() + 3;
	for _ in 0..rounds {
		for inner in &live.inners {
			step("complete an inner source", || inner.subject.clone().complete());
		}
	}
	if violated() {
		return;
	}
	check!(is_closed() != Some(false), "never-ends", "every source completed, but it's not closed: {:?}", seen.log());
	check!(
		seen.terminal().is_some() || live.unsubscribed.load(Ordering::Relaxed),
		"no-terminal",
		"every source completed, but no terminal was observed: {:?}",
		seen.log()
	);
	let failed = live.failed.load(Ordering::Relaxed) || book.lock().unwrap().errored;
	if seen.terminal() == Some(Sig::Complete) {
		compare(true);
		check!(!book.lock().unwrap().errored, "error-lost", "an inner source errored, but a completion was observed");
	}
	check!(
		failed || !matches!(seen.terminal(), Some(Sig::Error(_))),
		"wrong-terminal",
		"an error was observed, but no source errored: {:?}",
		seen.log()
	);
	released(setup, "once it finished");
	step("drop", || live.slots.clear());
	released(setup, "once it was dropped");
	check!(
		upstream.get() == 1 && downstream.get() == 1,
		"outer-teardown",
		"upstream was released {} times, downstream {} times",
		upstream.get(),
		downstream.get()
	);
}

fn released(setup: &Setup, when: &str) {
	let book = setup.book.lock().unwrap();
	for (n, instance) in book.instances.iter().enumerate() {
		check!(
			instance.released == 1,
			"inner-left-open",
			"inner subscription {n} to {} was released {} times {when}",
			instance.at,
			instance.released
		);
	}
	for tally in setup.live.added.lock().unwrap().iter() {
		check!(tally.get() == 1, "subscription-teardown", "a teardown added to the subscription ran {} times {when}", tally.get());
	}
}

fn nested() {
	let inners = draw_range(1, 3);
	let mut script = BTreeMap::new();
	for _ in 0..draw_range(1, 3) {
		let ops: Vec<Op> = (0..draw_range(1, 2)).map(|_| draw_op(inners, 1)).collect();
		script.insert(draw_range(1, 6) as usize, ops);
	}
	let Some(setup) = setup(script, inners, true) else { return };
	for _ in 0..draw_range(3, 16) {
		let op = draw_op(inners, if chance(1, 8) { 1 } else { 0 });
		step("a request", || setup.live.issue(&op));
		if violated() {
			return;
		}
	}
	finish(&setup);
}

fn threaded() {
	let inners = draw_range(1, 3);
	let Some(setup) = setup(BTreeMap::new(), inners, chance(1, 3)) else { return };
	for _ in 0..draw(4) {
		let op = draw_op(inners, 0);
		step("a request", || setup.live.issue(&op));
	}
	let faults = draw(2);
	let programs: Vec<Vec<Op>> =
		(0..draw_range(2, 3)).map(|_| (0..draw_range(1, 4)).map(|_| draw_op(inners, faults)).collect()).collect();
	let closures: Vec<Box<dyn FnOnce() + Send>> = programs
		.into_iter()
		.map(|ops| {
			let live = setup.live.clone();
			Box::new(move || {
				for op in &ops {
					step("a request", || live.issue(op));
				}
			}) as Box<dyn FnOnce() + Send>
		})
		.collect();
	threads(pick(&[3, 2, 6, 20]), closures);
	if violated() {
		return;
	}
	finish(&setup);
}

pub fn worlds() -> Vec<World> {
	vec![
		World { name: "flattening_nested", run: nested, quick: 40_000, thorough: 2_000_000 },
		World { name: "flattening_threads", run: threaded, quick: 30_000, thorough: 2_000_000 },
	]
}
