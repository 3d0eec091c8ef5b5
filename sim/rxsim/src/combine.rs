//! R10: observables of two sources.
use crate::common::*;
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
	Latest,
	Changes,
	/// At most this many values wait for their pair, and the oldest ones are dropped
	Zip(usize, bool),
	Join,
	WithLatestFrom,
}

impl Kind {
	pub fn draw() -> Kind {
		match draw(5) {
			0 => Kind::Latest,
			1 => Kind::Changes,
			2 => Kind::Zip(pick(&[100, 1, 2, 3]), chance(1, 2)),
			3 => Kind::Join,
			_ => Kind::WithLatestFrom,
		}
	}
}

#[derive(Clone, Debug, PartialEq)]
enum Source {
	Hot,
	HotTake(usize),
	Cold(Vec<V>, Sig),
}

#[derive(Clone, Copy, Debug)]
enum Act {
	Push(usize, V),
	Complete(usize),
	Error(usize, E),
	UnsubscribeSource(usize),
	Unsubscribe,
}

impl Act {
	fn draw() -> Act {
		let source = draw(2) as usize;
		match weighted(&[12, 2, 1, 1, 1]) {
			0 => Act::Push(source, draw(90) as V),
			1 => Act::Complete(source),
			2 => Act::Error(source, draw(9) as E),
			3 => Act::UnsubscribeSource(source),
			_ => Act::Unsubscribe,
		}
	}
}

// ───────────────────────── the model

#[derive(Default)]
struct Input {
	/// Of the subject
	finished: Option<Sig>,
	busy: bool,
	queue: VecDeque<Push>,
	/// Subscribed to, and hasn't ended
	open: bool,
	taken: usize,
	// what the combination knows
	latest: Option<V>,
	buffer: VecDeque<V>,
	primed: bool,
	completed: bool,
	closed: bool,
}

/// What happens to a subject
enum Push {
	Sig(Sig),
	/// The combination unsubscribes from it
	Leave,
}

struct Model {
	kind: Kind,
	sources: [Source; 2],
	inputs: [Input; 2],
	busy: bool,
	queue: VecDeque<(usize, Sig)>,
	take: Option<usize>,
	hooks: BTreeMap<usize, Act>,
	out: Vec<Sig>,
	subscribed: bool,
	/// The subscription is there to be used
	held: bool,
	closed: bool,
}

fn encode(a: V, b: V) -> V {
	a.wrapping_mul(1000).wrapping_add(b)
}

impl Model {
	fn act(&mut self, act: Act) {
		match act {
			Act::Push(s, v) => self.push(s, Sig::Next(v)),
			Act::Complete(s) => self.push(s, Sig::Complete),
			Act::Error(s, e) => self.push(s, Sig::Error(e)),
			Act::UnsubscribeSource(s) => self.push(s, Sig::Unsub),
			Act::Unsubscribe => {
				if self.held {
					let both = [0, 1];
					for s in if self.kind == Kind::WithLatestFrom { &both[..1] } else { &both } {
						self.push_or_put_off(*s, Push::Leave);
					}
				}
			}
		}
	}

	fn push(&mut self, s: usize, sig: Sig) {
		self.push_or_put_off(s, Push::Sig(sig));
	}

	/// Into the subject
	fn push_or_put_off(&mut self, s: usize, push: Push) {
		if self.inputs[s].busy {
			self.inputs[s].queue.push_back(push);
			return;
		}
		let is_hot = !matches!(self.sources[s], Source::Cold(..));
		self.inputs[s].busy = is_hot;
		let mut next = Some(push);
		while let Some(push) = next {
			match push {
				Push::Leave => self.input(s, Sig::Unsub),
				Push::Sig(sig) => {
					if is_hot && self.inputs[s].finished.is_none() {
						if !matches!(sig, Sig::Next(_)) {
							self.inputs[s].finished = Some(sig.clone());
						}
						self.input(s, sig);
					}
				}
			}
			next = self.inputs[s].queue.pop_front();
		}
		self.inputs[s].busy = false;
	}

	/// What the source emits
	fn input(&mut self, s: usize, sig: Sig) {
		if !self.inputs[s].open {
			return;
		}
		let is_next = matches!(sig, Sig::Next(_));
		if !is_next {
			self.inputs[s].open = false;
		}
		self.inputs[s].taken += is_next as usize;
		let ends = is_next && matches!(self.sources[s], Source::HotTake(n) if n == self.inputs[s].taken);
		self.deliver(s, sig);
		if ends && self.inputs[s].open {
			self.inputs[s].open = false;
			self.deliver(s, Sig::Complete);
		}
	}

	fn deliver(&mut self, s: usize, sig: Sig) {
		if self.closed {
			return;
		}
		if self.kind == Kind::WithLatestFrom && s == 1 {
			// Isn't emitted, so it isn't put off either
			match sig {
				Sig::Next(v) => {
					self.inputs[1].latest = Some(v);
					return;
				}
				Sig::Complete if self.inputs[1].latest.is_some() => return,
				Sig::Unsub => return,
				_ => {}
			}
		}
		if self.busy {
			self.queue.push_back((s, sig));
			return;
		}
		self.busy = true;
		let mut next = Some((s, sig));
		while let Some((s, sig)) = next {
			if !self.closed {
				self.process(s, sig);
			}
			next = self.queue.pop_front();
		}
		self.busy = false;
	}

	fn process(&mut self, s: usize, sig: Sig) {
		if let Sig::Error(_) = sig {
			self.finish(sig);
			return;
		}
		let input = &mut self.inputs[s];
		match sig {
			Sig::Next(v) => {
				input.latest = Some(v);
				input.primed = true;
				if let Kind::Zip(limit, drop_oldest) = self.kind {
					if input.buffer.len() < limit {
						input.buffer.push_back(v);
					} else {
						count("probe:zip_overflow");
						if drop_oldest {
							input.buffer.pop_front();
							input.buffer.push_back(v);
						}
					}
				}
			}
			Sig::Complete => {
				input.completed = true;
				input.closed = true;
			}
			_ => input.closed = true,
		}
		let is_next = matches!(sig, Sig::Next(_));
		let [a, b] = &self.inputs;
		let latest = a.latest.zip(b.latest).map(|(a, b)| encode(a, b));
		match self.kind {
			Kind::Latest => {
				if let Some(v) = latest
					&& is_next
				{
					self.emit(v);
				}
				let [a, b] = &self.inputs;
				let useless = |a: &Input, b: &Input| a.completed && !a.primed && b.primed;
				let abandoned = |a: &Input, b: &Input| a.closed && !a.primed && !b.primed && !b.closed;
				if (a.completed && b.completed) || useless(a, b) || useless(b, a) {
					self.finish(Sig::Complete);
				} else if (a.closed && b.closed) || abandoned(a, b) || abandoned(b, a) {
					self.close();
				}
			}
			Kind::Changes => {
				let tag = |i: usize, input: &Input| match input.latest {
					None => 0,
					Some(v) if i == s => v + 100,
					Some(v) => v + 300,
				};
				let v = encode(tag(0, a), tag(1, b));
				if is_next {
					self.emit(v);
				}
				self.finish_when_both_are();
			}
			Kind::Zip(..) => {
				if let [a, b] = &mut self.inputs
					&& !a.buffer.is_empty()
					&& !b.buffer.is_empty()
				{
					let v = encode(a.buffer.pop_front().unwrap(), b.buffer.pop_front().unwrap());
					self.emit(v);
				}
				let [a, b] = &self.inputs;
				let over = |input: &Input| input.completed && input.buffer.is_empty();
				let gone = |input: &Input| input.closed && input.buffer.is_empty();
				if over(a) || over(b) {
					self.finish(Sig::Complete);
				} else if gone(a) || gone(b) {
					self.close();
				}
			}
			Kind::Join => {
				if a.completed && b.completed {
					if let Some(v) = latest {
						self.emit(v);
					}
				}
				self.finish_when_both_are();
			}
			Kind::WithLatestFrom => match sig {
				Sig::Next(_) => {
					if let Some(v) = latest {
						self.emit(v);
					}
				}
				Sig::Complete => self.finish(Sig::Complete),
				_ => self.close(),
			},
		}
	}

	fn finish_when_both_are(&mut self) {
		let [a, b] = &self.inputs;
		if a.completed && b.completed {
			self.finish(Sig::Complete);
		} else if a.closed && b.closed {
			self.close();
		}
	}

	fn emit(&mut self, v: V) {
		if self.closed {
			return;
		}
		self.out.push(Sig::Next(v));
		let values = self.out.len();
		if let Some(act) = self.hooks.get(&values).copied() {
			self.act(act);
		}
		if self.take == Some(values) {
			self.finish(Sig::Complete);
		}
	}

	fn finish(&mut self, sig: Sig) {
		if !self.closed {
			self.out.push(sig);
			self.close();
		}
	}

	fn close(&mut self) {
		if !self.closed {
			self.closed = true;
			self.inputs[0].open = false;
			self.inputs[1].open = false;
		}
	}

	fn subscribe(&mut self) {
		self.subscribed = true;
		if self.take == Some(0) {
			self.finish(Sig::Complete);
		}
		let order = if self.kind == Kind::WithLatestFrom { [1, 0] } else { [0, 1] };
		for s in order {
			if self.closed {
				continue;
			}
			self.inputs[s].open = true;
			match self.sources[s].clone() {
				Source::Hot => {
					if let Some(sig) = self.inputs[s].finished.clone() {
						self.input(s, sig);
					}
				}
				Source::HotTake(n) => {
					if n == 0 {
						self.input(s, Sig::Complete);
					} else if let Some(sig) = self.inputs[s].finished.clone() {
						self.input(s, sig);
					}
				}
				Source::Cold(vs, end) => {
					for v in vs {
						self.input(s, Sig::Next(v));
					}
					if end != Sig::Next(0) {
						self.input(s, end);
					}
				}
			}
		}
	}
}

fn act(act: Act, subjects: &[PublishSubject<V, E>; 2], slots: &Slots) {
	match act {
		Act::Push(s, v) => subjects[s].clone().next(v),
		Act::Complete(s) => subjects[s].clone().complete(),
		Act::Error(s, e) => subjects[s].clone().error(e),
		Act::UnsubscribeSource(s) => subjects[s].clone().unsubscribe(),
		Act::Unsubscribe => {
			if let Some(mut subscription) = slots.take(0) {
				subscription.unsubscribe();
				slots.put(0, subscription);
			}
		}
	}
}

pub fn combine(kind: Kind, a: Dyn, b: Dyn) -> Dyn {
	match kind {
		Kind::Latest => Dyn::make(move || combine_latest(a.clone(), b.clone()).map(|(a, b)| encode(a, b))),
		Kind::Changes => Dyn::make(move || {
			combine_changes(a.clone(), b.clone()).map(|(a, b)| {
				let tag = |change| match change {
					Change::None => 0,
					Change::JustUpdated(v) => v + 100,
					Change::Latest(v) => v + 300,
				};
				encode(tag(a), tag(b))
			})
		}),
		Kind::Zip(limit, drop_oldest) => Dyn::make(move || {
			let overflow_behavior =
				if drop_oldest { QueueOverflowBehavior::DropOldest } else { QueueOverflowBehavior::IgnoreNext };
			zip(a.clone(), b.clone())
				.with_options(QueueOverflowOptions { max_queue_length: limit, overflow_behavior })
				.map(|(a, b)| encode(a, b))
		}),
		Kind::Join => Dyn::make(move || join(a.clone(), b.clone()).map(|(a, b)| encode(a, b))),
		Kind::WithLatestFrom => Dyn::make(move || a.clone().with_latest_from(b.clone()).map(|(a, b)| encode(a, b))),
	}
}

fn build(source: &Source, subject: &PublishSubject<V, E>) -> Dyn {
	let subject = subject.clone();
	match source.clone() {
		Source::Hot => Dyn::new(subject),
		Source::HotTake(n) => Dyn::make(move || subject.clone().take(n)),
		Source::Cold(vs, end) => Dyn::make(move || {
			let (vs, end) = (vs.clone(), end.clone());
			create_observable(move |destination: &mut dyn Subscriber<In = V, InError = E>| {
				for v in vs {
					if destination.is_closed() {
						return;
					}
					destination.next(v);
				}
				if destination.is_closed() {
					return;
				}
				match end {
					Sig::Error(e) => destination.error(e),
					Sig::Complete => destination.complete(),
					Sig::Unsub => destination.unsubscribe(),
					_ => {}
				}
			})
		}),
	}
}

fn draw_source() -> Source {
	match weighted(&[7, 1, 2]) {
		0 => Source::Hot,
		1 => Source::HotTake(draw(4) as usize),
		_ => Source::Cold(
			(0..draw(4)).map(|_| draw(90) as V).collect(),
			match weighted(&[4, 1, 1, 1]) {
				0 => Sig::Complete,
				1 => Sig::Error(draw(9) as E),
				2 => Sig::Unsub,
				// Stays open
				_ => Sig::Next(0),
			},
		),
	}
}

fn combinations() {
	let kind = Kind::draw();
	let sources = [draw_source(), draw_source()];
	let take = chance(1, 4).then(|| draw(4) as usize);
	let mut hooks = BTreeMap::new();
	if chance(1, 3) {
		for _ in 0..draw_range(1, 3) {
			hooks.insert(draw_range(1, 5) as usize, Act::draw());
		}
	}
	ev!("{kind:?} of {sources:?} take {take:?} hooks {hooks:?}");

	let subjects = [PublishSubject::<V, E>::default(), PublishSubject::<V, E>::default()];
	let slots = Slots::default();
	let (ups, down) = ([Tally::default(), Tally::default()], Tally::default());
	let tracked = |s: usize| {
		let (source, up) = (build(&sources[s], &subjects[s]), ups[s].clone());
		Dyn::make(move || source.clone().finalize(up.on()))
	};
	let mut pipeline = combine(kind, tracked(0), tracked(1));
	if let Some(n) = take {
		let source = pipeline;
		pipeline = Dyn::make(move || source.clone().take(n));
	}
	{
		let (source, down) = (pipeline, down.clone());
		pipeline = Dyn::make(move || source.clone().finalize(down.on()));
	}
	let hook: Option<Hook> = (!hooks.is_empty()).then(|| {
		let (hooks, subjects, slots) = (hooks.clone(), subjects.clone(), slots.clone());
		let values = AtomicUsize::new(0);
		Arc::new(move |sig: &Sig, _: usize| {
			if matches!(sig, Sig::Next(_)) {
				let nth = values.fetch_add(1, Ordering::Relaxed) + 1;
				if let Some(action) = hooks.get(&nth) {
					count("fault:reentrant");
					ev!("hook {action:?}");
					act(*action, &subjects, &slots);
				}
			}
		}) as Hook
	});
	let (observer, seen) = Plain::new(0, hook);
	let mut observer = Some(observer);
	let mut model = Model {
		kind,
		sources: sources.clone(),
		inputs: Default::default(),
		busy: false,
		queue: VecDeque::new(),
		take,
		hooks,
		out: vec![],
		subscribed: false,
		held: false,
		closed: false,
	};
	let steps = draw_range(4, 24);
	for n in 0..=steps {
		let last = n == steps;
		if observer.is_some() && (n > 2 || last || chance(3, 4)) {
			let observer = observer.take().unwrap();
			ev!("subscribe");
			let Some(subscription) = step("subscribe", || ErasedSubscription::new(pipeline.subscribe(observer))) else {
				return;
			};
			slots.put(0, subscription);
			model.subscribe();
			model.held = true;
		} else if last {
			ev!("the end");
			model.act(Act::Unsubscribe);
			if chance(1, 2) {
				step("unsubscribe", || act(Act::Unsubscribe, &subjects, &slots));
			} else if let Some(subscription) = slots.take(0) {
				step("drop", || drop(subscription));
			}
		} else {
			let action = Act::draw();
			if matches!(action, Act::Unsubscribe) {
				if chance(2, 3) {
					continue;
				}
				count("fault:unsubscribe");
			}
			ev!("{action:?}");
			model.act(action);
			step("act", || act(action, &subjects, &slots));
		}
		if violated() {
			return;
		}
		seen.check_grammar("a combination");
		let log = seen.log();
		if log != model.out {
			let same = log.iter().zip(&model.out).take_while(|(a, b)| a == b).count();
			violation(
				if same == log.len() {
					"signals-missing"
				} else if same == model.out.len() {
					"signals-unexpected"
				} else {
					"signals-different"
				},
				format!("observed {log:?} instead of {:?}", model.out),
			);
			return;
		}
		let closed = model.closed && model.subscribed;
		check!(down.get() == closed as u64, "teardown", "closed: {closed}, but it was released {} times", down.get());
		for s in 0..2 {
			// A source that ended by itself may be released along with the other
			let most = model.subscribed && !model.inputs[s].open;
			let times = ups[s].get();
			check!(
				times >= closed as u64 && times <= most as u64,
				"upstream-teardown",
				"closed: {closed}, source {s} is over: {most}, but it was released {times} times"
			);
		}
		if let Some(subscription) = slots.take(0) {
			let says = subscription.is_closed();
			slots.put(0, subscription);
			check!(says == closed, "is-closed", "the subscription says closed: {says} instead of {closed}");
		}
		if violated() {
			return;
		}
	}
	if model.out.len() > 1 {
		count("probe:signals");
	}
}

/// Each source is used by a thread of its own
fn racing() {
	let kind = match draw(5) {
		0 => Kind::Latest,
		1 => Kind::Changes,
		2 => Kind::Zip(100, true),
		3 => Kind::Join,
		_ => Kind::WithLatestFrom,
	};
	let counts = [draw_range(0, 4) as V, draw_range(0, 4) as V];
	let ends: Vec<Sig> = (0..2)
		.map(|_| match weighted(&[4, 1, 1, 2]) {
			0 => Sig::Complete,
			1 => Sig::Error(draw(9) as E),
			2 => Sig::Unsub,
			// Doesn't end
			_ => Sig::Next(0),
		})
		.collect();
	let take = chance(1, 4).then(|| draw_range(1, 3) as usize);
	let unsubscriber = chance(1, 3);
	ev!("{kind:?} of {counts:?} {ends:?} take {take:?} unsubscribed {unsubscriber}");
	let subjects = [PublishSubject::<V, E>::default(), PublishSubject::<V, E>::default()];
	let (ups, down) = ([Tally::default(), Tally::default()], Tally::default());
	let tracked = |s: usize| {
		let (subject, up) = (subjects[s].clone(), ups[s].clone());
		Dyn::make(move || subject.clone().finalize(up.on()))
	};
	let mut pipeline = combine(kind, tracked(0), tracked(1));
	if let Some(n) = take {
		let source = pipeline;
		pipeline = Dyn::make(move || source.clone().take(n));
	}
	{
		let (source, down) = (pipeline, down.clone());
		pipeline = Dyn::make(move || source.clone().finalize(down.on()));
	}
	let (observer, seen) = Plain::new(0, None);
	let Some(subscription) = step("subscribe", || ErasedSubscription::new(pipeline.subscribe(observer))) else {
		return;
	};
	let slots = Slots::default();
	slots.put(0, subscription);
	let mut programs: Vec<Box<dyn FnOnce() + Send>> = (0..2)
		.map(|s| {
			let (mut subject, count, end) = (subjects[s].clone(), counts[s], ends[s].clone());
			Box::new(move || {
				for v in 1..=count {
					step("push", || subject.next(v));
				}
				step("end", || match end {
					Sig::Complete => subject.complete(),
					Sig::Error(e) => subject.error(e),
					Sig::Unsub => subject.unsubscribe(),
					_ => {}
				});
			}) as Box<dyn FnOnce() + Send>
		})
		.collect();
	if unsubscriber {
		count("fault:unsubscribe");
		let slots = slots.clone();
		programs.push(Box::new(move || {
			let mut subscription = slots.take(0).unwrap();
			step("unsubscribe", || subscription.unsubscribe());
			slots.put(0, subscription);
		}));
	}
	threads(pick(&[3, 2, 6, 20]), programs);
	if violated() {
		return;
	}
	// ── what was seen
	seen.check_grammar("a combination of racing sources");
	let values = seen.values();
	let terminal = seen.terminal();
	let cut = unsubscriber
		|| take.is_some_and(|n| values.len() >= n)
		|| ends.iter().any(|end| matches!(end, Sig::Error(_)))
		|| (kind == Kind::WithLatestFrom && ends[0] == Sig::Unsub);
	let decoded: Vec<(V, V)> = values.iter().map(|v| (v / 1000, v % 1000)).collect();
	let plain: Vec<(V, V)> = match kind {
		Kind::Changes => decoded.iter().map(|(a, b)| (a % 100, b % 100)).collect(),
		_ => decoded.clone(),
	};
	let all = counts;
	match kind {
		Kind::Zip(..) => {
			for (i, pair) in decoded.iter().enumerate() {
				let i = i as V + 1;
				check!(*pair == (i, i), "zip-mispaired", "pair {i} is {pair:?} in {decoded:?}");
			}
			let ends_early = (0..2).any(|s| ends[s] != Sig::Next(0) && counts[s] <= counts[1 - s]);
			if !cut {
				let most = all[0].min(all[1]) as usize;
				check!(decoded.len() == most, "signals-missing", "only {} of {most} pairs were emitted: {decoded:?}", decoded.len());
				if ends_early {
					check!(seen.closed() || down.get() == 1, "never-closed", "there can be no more pairs, but it is open");
				}
			}
		}
		Kind::Join => {
			check!(
				decoded.is_empty() || decoded == [(all[0], all[1])],
				"join-wrong",
				"{decoded:?} was emitted instead of the last values of {all:?}"
			);
			if !cut && ends.iter().all(|end| *end == Sig::Complete) && all.iter().all(|n| *n > 0) {
				check!(decoded.len() == 1, "signals-missing", "both completed, but nothing was emitted");
			}
		}
		_ => {
			let mut last = (0, 0);
			for (i, pair) in plain.iter().enumerate() {
				let (da, db) = (pair.0 - last.0, pair.1 - last.1);
				let first = i == 0 && kind != Kind::Changes;
				let by_one = match kind {
					Kind::WithLatestFrom => da >= 1 && db >= 0,
					_ => (da, db) == (1, 0) || (da, db) == (0, 1),
				};
				check!(
					(da >= 0 && db >= 0) && (first || by_one),
					"not-the-latest",
					"{pair:?} follows {last:?} in {plain:?}"
				);
				if kind == Kind::WithLatestFrom && !first {
					check!(da == 1, "signals-missing", "{pair:?} follows {last:?} in {plain:?}");
				}
				last = *pair;
			}
			// Completing before the other ever emitted ends it early
			let empty = (0..2).any(|s| counts[s] == 0 && ends[s] != Sig::Next(0));
			let abandoned = kind == Kind::Latest && (0..2).any(|s| counts[s] == 0 || ends[s] != Sig::Next(0)) && plain.is_empty();
			if !cut && !empty && !abandoned && kind != Kind::WithLatestFrom && all.iter().all(|n| *n > 0) {
				check!(last == (all[0], all[1]), "signals-missing", "the last values are {all:?}, but {plain:?} were emitted");
			}
		}
	}
	if !unsubscriber && terminal.is_none() && kind != Kind::WithLatestFrom {
		if let Some(Sig::Error(_)) = ends.iter().find(|end| matches!(end, Sig::Error(_))) {
			// Unless it was over before
			check!(seen.closed() || down.get() == 1, "never-closed", "a source errored, but it is open");
		}
		let unsubscribes_early = kind == Kind::Latest && counts.contains(&0);
		if ends.iter().all(|end| *end == Sig::Complete) && !unsubscribes_early {
			check!(false, "never-completed", "both sources completed, but it did not: {plain:?}");
		}
	}
	if let Some(Sig::Error(e)) = &terminal {
		check!(ends.contains(&Sig::Error(*e)), "wrong-error", "nobody sent {e}");
	}
	// ── nothing stays
	if let Some(subscription) = slots.take(0) {
		let says = subscription.is_closed();
		let closed = seen.closed() || down.get() == 1 || unsubscriber;
		check!(says == closed, "is-closed", "the subscription says closed: {says} instead of {closed}");
		step("drop", || drop(subscription));
	}
	check!(down.get() == 1, "teardown", "it is unsubscribed, but was released {} times", down.get());
	for s in 0..2 {
		check!(ups[s].get() == 1, "upstream-teardown", "it is unsubscribed, but source {s} was released {} times", ups[s].get());
	}
	if values.len() > 1 {
		count("probe:raced");
	}
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R10",
		worlds: vec![
			World { name: "combinations", run: combinations, quick: 80_000, thorough: 4_000_000 },
			World { name: "racing", run: racing, quick: 30_000, thorough: 1_500_000 },
		],
		rule: "after every step the signals observed, the releases of both sources and of the combination, and whether the subscription is \
			closed are compared with a reference model of the operators; with racing sources, what each operator guarantees about its values \
			whatever the interleaving, that it closes and releases everything is checked once they are done",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["probe:zip_overflow", "probe:signals", "probe:raced", "fault:reentrant", "fault:unsubscribe"],
	});
}
