//! R09: observables of observables.
use crate::common::*;
use crate::pipes::Source;
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
	Merge(usize),
	Concat,
	Switch,
	Exhaust,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form {
	Map,
	All,
	/// From a fixed list of observables instead of an outer source
	List,
}

impl Kind {
	pub fn draw() -> Kind {
		match draw(5) {
			0 | 1 => Kind::Merge(draw_range(1, 4) as usize),
			2 => Kind::Concat,
			3 => Kind::Switch,
			_ => Kind::Exhaust,
		}
	}
	pub fn limit(&self) -> usize {
		match self {
			Kind::Merge(n) => *n,
			_ => 1,
		}
	}
	pub fn build(&self, form: Form, outer: Dyn, pick: impl Fn(V) -> Dyn + Clone + Send + Sync + 'static) -> Dyn {
		let map = pick.clone();
		let e = |e: E| e + 100;
		match (form, *self) {
			(Form::Map, Kind::Merge(n)) => Dyn::new(outer.merge_map(map, n, e)),
			(Form::Map, Kind::Concat) => Dyn::new(outer.concat_map(map, e)),
			(Form::Map, Kind::Switch) => Dyn::new(outer.switch_map(map, e)),
			(Form::Map, Kind::Exhaust) => Dyn::new(outer.exhaust_map(map, e)),
			(_, Kind::Merge(n)) => Dyn::new(outer.map(pick).merge_all(n, e)),
			(_, Kind::Concat) => Dyn::new(outer.map(pick).concat_all(e)),
			(_, Kind::Switch) => Dyn::new(outer.map(pick).switch_all(e)),
			(_, Kind::Exhaust) => Dyn::new(outer.map(pick).exhaust_all(e)),
		}
	}
	pub fn list(&self, inners: &[Dyn]) -> Dyn {
		macro_rules! of {
			($($n:literal)*) => {
				match (inners.len(), *self) {
					$(
						($n, Kind::Merge(limit)) => {
							let list: [Dyn; $n] = std::array::from_fn(|i| inners[i].clone());
							Dyn::new(merge(list, limit))
						}
						($n, _) => {
							let list: [Dyn; $n] = std::array::from_fn(|i| inners[i].clone());
							Dyn::new(concat(list))
						}
					)*
					_ => unreachable!(),
				}
			};
		}
		of!(1 2 3 4)
	}
}

/// One of the observables that are subscribed to
#[derive(Clone)]
struct Inner {
	source: Source,
	subject: PublishSubject<V, E>,
	behavior: BehaviorSubject<V, E>,
	tag: V,
	track: Track,
	released: Tally,
	order: Arc<Mutex<Vec<usize>>>,
}

impl Inner {
	fn new(at: usize, source: Source, order: Arc<Mutex<Vec<usize>>>) -> Inner {
		let behavior = BehaviorSubject::new(if let Source::Behavior(v) = source { v } else { 0 });
		Inner {
			source,
			subject: PublishSubject::default(),
			behavior,
			tag: 1000 * (at as V + 1),
			track: Track::new(at as u32),
			released: Tally::default(),
			order,
		}
	}
	fn observable(&self) -> Dyn {
		let tag = self.tag;
		let source = self.source.build(&self.subject, &self.behavior);
		let order = self.order.clone();
		let at = (tag / 1000 - 1) as usize;
		let inner = Dyn::new(source.tracked(&self.track).map(move |v| tag + v).finalize(self.released.on()));
		Dyn::custom(move |destination| {
			order.lock().unwrap().push(at);
			ErasedSubscription::new(inner.clone().subscribe(destination))
		})
	}
	fn push(&self, sig: &Sig) {
		let (mut s, mut b) = (self.subject.clone(), self.behavior.clone());
		macro_rules! both {
			($f:ident $(, $a:expr)?) => {
				if matches!(self.source, Source::Subject) { s.$f($($a)?) } else { b.$f($($a)?) }
			};
		}
		match sig.clone() {
			Sig::Next(v) => both!(next, v),
			Sig::Error(e) => both!(error, e),
			Sig::Complete => both!(complete),
			Sig::Unsub => both!(unsubscribe),
		}
	}
}

// ───────────────────────── model

/// What a source that can be pushed into does
#[derive(Clone, Debug)]
struct Feed {
	source: Source,
	last: V,
	ended: Option<Sig>,
}

impl Feed {
	fn new(source: Source) -> Feed {
		let last = if let Source::Behavior(v) = source { v } else { 0 };
		Feed { source, last, ended: None }
	}
	/// What is observed while subscribing
	fn cold(&self) -> Vec<Sig> {
		match (&self.source, &self.ended) {
			(Source::Subject, Some(end)) => vec![end.clone()],
			(Source::Behavior(_), Some(Sig::Error(e))) => vec![Sig::Error(*e)],
			(Source::Behavior(_), Some(end)) => vec![Sig::Next(self.last), end.clone()],
			(Source::Behavior(_), None) => vec![Sig::Next(self.last)],
			(source, _) => source.cold(),
		}
	}
	/// Whether anyone would hear of it
	fn push(&mut self, sig: &Sig) -> bool {
		if self.ended.is_some() {
			return false;
		}
		match sig {
			Sig::Next(v) => self.last = *v,
			end => self.ended = Some(end.clone()),
		}
		true
	}
}

struct Model {
	kind: Kind,
	feeds: Vec<Feed>,
	active: Vec<(u32, usize)>,
	next_id: u32,
	queue: VecDeque<usize>,
	order: Vec<usize>,
	outer: Option<Sig>,
	out: Vec<Sig>,
	closed: bool,
	finishing: u32,
	take: usize,
	values: usize,
}

impl Model {
	fn emit(&mut self, sig: Sig) {
		if self.closed {
			return;
		}
		match sig {
			Sig::Next(_) => {
				self.out.push(sig);
				self.values += 1;
				if self.values >= self.take {
					self.out.push(Sig::Complete);
					self.close();
				}
			}
			Sig::Unsub => self.close(),
			sig => {
				self.out.push(sig);
				self.close();
			}
		}
	}

	fn close(&mut self) {
		self.closed = true;
		self.active.clear();
		self.queue.clear();
	}

	fn outer(&mut self, sig: Sig) {
		if self.closed || (self.outer.is_some() && sig != Sig::Unsub) {
			return;
		}
		match sig {
			Sig::Next(v) => {
				let at = v.rem_euclid(self.feeds.len() as V) as usize;
				match self.kind {
					Kind::Merge(_) | Kind::Concat => {
						if self.active.len() < self.kind.limit() {
							self.subscribe(at);
						} else {
							count("probe:queued");
							self.queue.push_back(at);
						}
					}
					Kind::Switch => {
						if !self.active.is_empty() {
							count("probe:switched");
						}
						self.active.clear();
						self.subscribe(at);
					}
					Kind::Exhaust => {
						if self.active.is_empty() {
							self.subscribe(at);
						} else {
							count("probe:ignored");
						}
					}
				}
			}
			Sig::Error(e) => self.emit(Sig::Error(e + 100)),
			Sig::Unsub => self.emit(Sig::Unsub),
			Sig::Complete => {
				self.outer = Some(Sig::Complete);
				if self.active.is_empty() && self.queue.is_empty() {
					self.emit(Sig::Complete);
				} else {
					count("probe:outer_completed_first");
				}
			}
		}
	}

	fn subscribe(&mut self, at: usize) {
		self.order.push(at);
		let id = self.next_id;
		self.next_id += 1;
		self.active.push((id, at));
		for sig in self.feeds[at].cold() {
			self.inner(id, at, sig);
		}
	}

	fn inner(&mut self, id: u32, at: usize, sig: Sig) {
		if self.closed || !self.active.contains(&(id, at)) {
			return;
		}
		match sig {
			Sig::Next(v) => self.emit(Sig::Next(1000 * (at as V + 1) + v)),
			Sig::Error(e) => self.emit(Sig::Error(e)),
			end => {
				self.active.retain(|a| *a != (id, at));
				// The others that could start now come before its completion
				if end == Sig::Complete {
					self.finishing += 1;
				}
				while self.finishing <= (end == Sig::Complete) as u32
					&& !self.closed
					&& self.active.len() < self.kind.limit()
					&& let Some(next) = self.queue.pop_front()
				{
					self.subscribe(next);
				}
				if end == Sig::Complete {
					self.finishing -= 1;
				}
				if self.finishing == 0
					&& self.outer.is_some() && self.active.is_empty() && self.queue.is_empty() {
					self.emit(end);
				}
			}
		}
	}

	fn push(&mut self, at: usize, sig: Sig) {
		if !self.feeds[at].push(&sig) {
			return;
		}
		for (id, active) in self.active.clone() {
			if active == at {
				self.inner(id, at, sig.clone());
			}
		}
	}
}

// ───────────────────────── sequential world

fn draw_sig() -> Sig {
	match weighted(&[12, 4, 1, 1]) {
		0 => Sig::Next(draw(90) as V),
		1 => Sig::Complete,
		2 => Sig::Error(draw(9) as E),
		_ => Sig::Unsub,
	}
}

fn world() {
	let kind = Kind::draw();
	let form = match kind {
		Kind::Merge(_) | Kind::Concat => pick(&[Form::Map, Form::All, Form::List]),
		_ => pick(&[Form::Map, Form::All]),
	};
	let order = Arc::new(Mutex::new(vec![]));
	let inners: Vec<Inner> = (0..draw_range(1, 4))
		.map(|at| {
			let source = if chance(1, 2) { Source::Subject } else { Source::draw() };
			Inner::new(at as usize, source, order.clone())
		})
		.collect();
	let outer = Inner::new(100, if chance(3, 4) { Source::Subject } else { Source::draw() }, Arc::default());
	let take = if chance(1, 4) { draw(4) as usize } else { usize::MAX };
	ev!("{kind:?} {form:?} of {:?} outer {:?} take {take}", inners.iter().map(|i| &i.source).collect::<Vec<_>>(), outer.source);

	let (upstream, downstream) = (Tally::default(), Tally::default());
	let mut pipeline = if form == Form::List {
		kind.list(&inners.iter().map(Inner::observable).collect::<Vec<_>>())
	} else {
		let source = Dyn::new(outer.source.build(&outer.subject, &outer.behavior).finalize(upstream.on()));
		let inners = inners.clone();
		kind.build(form, source, move |v| inners[v.rem_euclid(inners.len() as V) as usize].observable())
	};
	if take != usize::MAX {
		pipeline = Dyn::new(pipeline.take(take));
	}
	let mut pipeline = Dyn::new(pipeline.finalize(downstream.on()));

	let mut feed = Feed::new(outer.source.clone());
	let mut model = Model {
		kind,
		feeds: inners.iter().map(|i| Feed::new(i.source.clone())).collect(),
		active: vec![],
		next_id: 0,
		queue: VecDeque::new(),
		order: vec![],
		outer: None,
		out: vec![],
		closed: false,
		finishing: 0,
		take,
		values: 0,
	};
	let (observer, seen) = Plain::new(0, None);
	let mut observer = Some(observer);
	let slots = Slots::default();
	let mut added: Vec<Tally> = vec![];
	let mut subscribed = false;
	let subscribe_at = draw(3);
	for n in 0..draw_range(4, 30) {
		if !subscribed && n >= subscribe_at {
			subscribed = true;
			if take == 0 {
				model.emit(Sig::Complete);
			}
			let starts = if form == Form::List {
				let mut starts: Vec<Sig> = (0..inners.len()).map(|at| Sig::Next(at as V)).collect();
				starts.push(Sig::Complete);
				starts
			} else {
				let mut starts = feed.cold();
				// Those are over, and unsubscribe right after they emitted
				// everything (see InertSubscription)
				if feed.ended.is_some() || !outer.source.hot() && !matches!(outer.source, Source::Create(_) | Source::Never) {
					starts.push(Sig::Unsub);
				}
				starts
			};
			for sig in starts {
				model.outer(sig);
			}
			let observer = observer.take().unwrap();
			let Some(subscription) = step("subscribe", || ErasedSubscription::new(pipeline.subscribe(observer))) else {
				return;
			};
			slots.put(0, subscription);
		}
		compare(&model, &seen, &inners, &order, &slots, &added, subscribed, form);
		if violated() {
			return;
		}
		match weighted(&[10, 20, 1, 2]) {
			0 => {
				if form == Form::List || !outer.source.hot() {
					continue;
				}
				let sig = draw_sig();
				ev!("outer {sig:?}");
				let heard = feed.push(&sig) || sig == Sig::Unsub;
				if heard && subscribed {
					model.outer(sig.clone());
				}
				step("outer", || outer.push(&sig));
			}
			1 => {
				let at = draw(inners.len() as u32) as usize;
				if !inners[at].source.hot() {
					continue;
				}
				let sig = draw_sig();
				ev!("inner {at} {sig:?}");
				if sig == Sig::Unsub && !model.feeds[at].ended.as_ref().is_some_and(|s| *s != Sig::Unsub) {
					count("fault:inner_cancelled");
				}
				model.push(at, sig.clone());
				step("inner", || inners[at].push(&sig));
			}
			2 => {
				let Some(mut subscription) = slots.take(0) else { continue };
				count("fault:unsubscribe");
				ev!("unsubscribe");
				model.emit(Sig::Unsub);
				if chance(1, 2) {
					step("unsubscribe", || subscription.unsubscribe());
					slots.put(0, subscription);
				} else {
					step("drop", || drop(subscription));
				}
			}
			_ => {
				let Some(mut subscription) = slots.take(0) else { continue };
				let tally = Tally::default();
				step("add_teardown", || subscription.add_teardown(Teardown::new(tally.on())));
				slots.put(0, subscription);
				added.push(tally);
			}
		}
	}
	compare(&model, &seen, &inners, &order, &slots, &added, subscribed, form);
	let closed = subscribed && model.closed;
	check!(downstream.get() == closed as u64, "downstream-teardown", "closed: {closed} but downstream was released {} times", downstream.get());
	if form != Form::List {
		let may = subscribed && (closed || model.outer.is_some());
		check!(
			(closed as u64..=may as u64).contains(&upstream.get()),
			"upstream-teardown",
			"closed: {closed}, but upstream was released {} times",
			upstream.get()
		);
	}
	step("drop", || slots.clear());
	for inner in &inners {
		check!(
			inner.track.active() == 0 && !inner.track.released_twice(),
			"inner-left-open",
			"{} inner subscriptions of {} are still open once everything was dropped",
			inner.track.active(),
			inner.track.name
		);
	}
}

#[allow(clippy::too_many_arguments)]
fn compare(
	model: &Model,
	seen: &Seen,
	inners: &[Inner],
	order: &Mutex<Vec<usize>>,
	slots: &Slots,
	added: &[Tally],
	subscribed: bool,
	form: Form,
) {
	if !subscribed {
		return;
	}
	let log = seen.log();
	seen.check_grammar("a flattening operator");
	check!(log == model.out, "wrong-output", "observed {log:?} instead of {:?}", model.out);
	let order = order.lock().unwrap().clone();
	check!(order == model.order, "wrong-order", "{:?} {form:?} subscribed to {order:?} instead of {:?}", model.kind, model.order);
	for (at, inner) in inners.iter().enumerate() {
		let want = model.active.iter().filter(|a| a.1 == at).count() as u32;
		check!(
			inner.track.active() == want && inner.track.acquired() as u64 == want as u64 + inner.released.get(),
			"wrong-active",
			"{} of {} subscriptions to inner {at} are active ({} finalized) instead of {want}",
			inner.track.active(),
			inner.track.acquired(),
			inner.released.get()
		);
	}
	if let Some(subscription) = slots.take(0) {
		let closed = subscription.is_closed();
		slots.put(0, subscription);
		check!(closed == model.closed, "is-closed", "the subscription says closed: {closed}, but it's {}", model.closed);
	}
	for tally in added {
		check!(
			tally.get() == model.closed as u64,
			"subscription-teardown",
			"closed: {}, but a teardown added to the subscription ran {} times",
			model.closed,
			tally.get()
		);
	}
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R09",
		worlds: {
			let mut worlds = vec![World { name: "flattening", run: world, quick: 60_000, thorough: 3_000_000 }];
			worlds.extend(crate::flatten_live::worlds());
			worlds
		},
		rule: "the signals observed, the order in which inner observables were subscribed to, which of them are active, and what was released \
			are compared after every step with a reference model",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &[
			"probe:queued",
			"probe:switched",
			"probe:ignored",
			"probe:outer_completed_first",
			"fault:unsubscribe",
			"fault:inner_cancelled",
		],
	});
}
