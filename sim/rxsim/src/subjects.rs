//! R06/R07/R08: subjects against a reference model, with reentrant requests.
use crate::common::*;

pub trait AnySubject: Send + Sync {
	fn next(&self, v: V);
	fn error(&self, e: E);
	fn complete(&self);
	fn unsubscribe(&self);
	fn is_closed(&self) -> bool;
	fn subscribe(&self, probe: Probe) -> AnySubscription;
	fn stored(&self) -> Option<Vec<V>>;
}

macro_rules! any_subject {
	($name:ident, $ty:ty, $stored:expr) => {
		struct $name(Mutex<$ty>);
		impl $name {
			fn s(&self) -> $ty {
				let guard = self.0.lock().unwrap();
				guard.clone()
			}
		}
		impl AnySubject for $name {
			fn next(&self, v: V) {
				self.s().next(v)
			}
			fn error(&self, e: E) {
				self.s().error(e)
			}
			fn complete(&self) {
				self.s().complete()
			}
			fn unsubscribe(&self) {
				self.s().unsubscribe()
			}
			fn is_closed(&self) -> bool {
				self.s().is_closed()
			}
			fn subscribe(&self, probe: Probe) -> AnySubscription {
				ErasedSubscription::new(self.s().subscribe(probe))
			}
			fn stored(&self) -> Option<Vec<V>> {
				let f: fn($ty) -> Option<Vec<V>> = $stored;
				f(self.s())
			}
		}
	};
}

type SumSubject = AsyncSubject<V, E, fn(V, V) -> V>;

any_subject!(Publish, PublishSubject<V, E>, |_| None);
any_subject!(Behavior, BehaviorSubject<V, E>, |s| Some(vec![s.value()]));
any_subject!(Replay1, ReplaySubject<1, V, E>, |s| Some(s.values()));
any_subject!(Replay3, ReplaySubject<3, V, E>, |s| Some(s.values()));
any_subject!(AsyncLast, AsyncSubject<V, E>, |s| Some(s.value().into_iter().collect()));
any_subject!(AsyncSum, SumSubject, |s| Some(s.value().into_iter().collect()));

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
	Publish,
	Behavior,
	Replay1,
	Replay3,
	AsyncLast,
	AsyncSum,
}

fn sum(a: V, b: V) -> V {
	a * 3 + b
}

pub fn make(kind: Kind) -> Arc<dyn AnySubject> {
	match kind {
		Kind::Publish => Arc::new(Publish(Mutex::new(PublishSubject::default()))),
		Kind::Behavior => Arc::new(Behavior(Mutex::new(BehaviorSubject::new(0)))),
		Kind::Replay1 => Arc::new(Replay1(Mutex::new(ReplaySubject::default()))),
		Kind::Replay3 => Arc::new(Replay3(Mutex::new(ReplaySubject::default()))),
		Kind::AsyncLast => Arc::new(AsyncLast(Mutex::new(AsyncSubject::default()))),
		Kind::AsyncSum => Arc::new(AsyncSum(Mutex::new(AsyncSubject::new(sum as fn(V, V) -> V)))),
	}
}

// ───────────────────────── model

struct SubModel {
	expected: Vec<Sig>,
	active: bool,
	limit: usize,
}

impl SubModel {
	fn push(&mut self, sig: Sig) {
		if !self.active {
			return;
		}
		if sig == Sig::Unsub || sig.is_terminal() {
			self.active = false;
		}
		self.expected.push(sig);
		if self.expected.len() >= self.limit {
			self.active = false;
		}
	}
}

struct Model {
	kind: Kind,
	terminal: Option<Sig>,
	unsubscribed: bool,
	stored: Vec<V>,
	finishing: bool,
	subs: BTreeMap<u32, SubModel>,
}

impl Model {
	fn new(kind: Kind) -> Model {
		let stored = if kind == Kind::Behavior { vec![0] } else { vec![] };
		Model { kind, terminal: None, unsubscribed: false, stored, finishing: false, subs: BTreeMap::new() }
	}

	fn closed(&self) -> bool {
		self.terminal.is_some() || self.unsubscribed
	}

	fn all(&mut self, sig: Sig) {
		for sub in self.subs.values_mut() {
			sub.push(sig.clone());
		}
	}

	fn next(&mut self, v: V) {
		if self.closed() {
			return;
		}
		match self.kind {
			Kind::Publish => {}
			Kind::Behavior | Kind::Replay1 | Kind::Replay3 => {
				self.stored.push(v);
				let cap = if self.kind == Kind::Replay3 { 3 } else { 1 };
				while self.stored.len() > cap {
					self.stored.remove(0);
				}
			}
			Kind::AsyncLast => self.stored = vec![v],
			Kind::AsyncSum => self.stored = vec![self.stored.first().map_or(v, |a| sum(*a, v))],
		}
		if !matches!(self.kind, Kind::AsyncLast | Kind::AsyncSum) {
			self.all(Sig::Next(v));
		}
	}

	fn end(&mut self, sig: Sig) {
		if self.closed() {
			return;
		}
		if sig == Sig::Complete
			&& matches!(self.kind, Kind::AsyncLast | Kind::AsyncSum)
			&& let Some(v) = self.stored.first().copied()
		{
			self.all(Sig::Next(v));
			// What is requested in response to the result comes before the
			// completion
			self.finishing = true;
		} else {
			self.all(sig.clone());
		}
		self.terminal = Some(sig);
	}

	fn finish(&mut self) {
		if std::mem::take(&mut self.finishing) {
			self.all(Sig::Complete);
		}
	}

	fn unsubscribe(&mut self) {
		self.all(Sig::Unsub);
		self.unsubscribed = true;
	}

	fn subscribe(&mut self, id: u32, limit: usize) {
		let mut sub = SubModel { expected: vec![], active: true, limit };
		let replays = match self.kind {
			Kind::Publish => false,
			Kind::Behavior | Kind::Replay1 | Kind::Replay3 => true,
			Kind::AsyncLast | Kind::AsyncSum => self.terminal == Some(Sig::Complete),
		};
		if replays && !matches!(self.terminal, Some(Sig::Error(_))) {
			for v in &self.stored {
				sub.push(Sig::Next(*v));
			}
		}
		if self.finishing {
			// Will get the completion with the rest
		} else if let Some(terminal) = &self.terminal {
			sub.push(terminal.clone());
		} else if self.unsubscribed {
			sub.push(Sig::Unsub);
		}
		self.subs.insert(id, sub);
	}
}

// ───────────────────────── program

#[derive(Clone, Debug)]
enum Op {
	Next,
	Error,
	Complete,
	UnsubscribeAll,
	Subscribe(SubSpec),
	Unsubscribe(u32),
	Drop(u32),
	IsClosed,
}

#[derive(Clone, Debug)]
struct SubSpec {
	id: u32,
	limit: usize,
	/// What it does on its nth signal
	script: BTreeMap<usize, Vec<Op>>,
	via_take: bool,
}

struct Gen {
	next_sub: u32,
	terminals: bool,
	reentrant: bool,
}

impl Gen {
	fn op(&mut self, depth: u32) -> Op {
		let t = if self.terminals { 1 } else { 0 };
		match weighted(&[10, 5, 3, 2, t, t, t, 1]) {
			0 => Op::Next,
			1 => Op::Subscribe(self.sub(depth)),
			2 => Op::Unsubscribe(draw_range(1, self.next_sub.max(1))),
			3 => Op::Drop(draw_range(1, self.next_sub.max(1))),
			4 => Op::Complete,
			5 => Op::Error,
			6 => Op::UnsubscribeAll,
			_ => Op::IsClosed,
		}
	}

	fn sub(&mut self, depth: u32) -> SubSpec {
		self.next_sub += 1;
		let id = self.next_sub;
		let mut script = BTreeMap::new();
		if self.reentrant && depth > 0 && chance(1, 2) {
			for _ in 0..draw_range(1, 2) {
				let at = draw_range(1, 4) as usize;
				let mut ops = vec![];
				for _ in 0..draw_range(1, 2) {
					ops.push(self.op(depth - 1));
				}
				script.insert(at, ops);
			}
		}
		let limit = if chance(1, 6) { draw_range(1, 3) as usize } else { usize::MAX };
		SubSpec { id, limit, script, via_take: false }
	}
}

struct Live {
	subject: Arc<dyn AnySubject>,
	model: Mutex<Model>,
	seen: Mutex<BTreeMap<u32, Seen>>,
	slots: Slots,
	values: AtomicU64,
	depth: AtomicU64,
	/// How many subscribers are in the middle of being replayed to
	replaying: AtomicU64,
	push_while_replaying: bool,
}

impl Live {
	fn hook(self: &Arc<Self>, spec: &SubSpec) -> Option<Hook> {
		if spec.script.is_empty() {
			return None;
		}
		let live = Arc::downgrade(self);
		let script = spec.script.clone();
		Some(Arc::new(move |sig, nth| {
			if *sig == Sig::Complete
				&& let Some(live) = live.upgrade()
			{
				live.model.lock().unwrap().finish();
			}
			if let Some(ops) = script.get(&nth)
				&& let Some(live) = live.upgrade()
			{
				live.depth.fetch_add(1, Ordering::Relaxed);
				for op in ops {
					count("fault:reentrant_request");
					live.issue(op);
				}
				live.depth.fetch_sub(1, Ordering::Relaxed);
			}
		}))
	}

	fn issue(self: &Arc<Self>, op: &Op) {
		match op {
			Op::Next => {
				if self.replaying.load(Ordering::Relaxed) > 0 {
					if !self.push_while_replaying {
						return;
					}
					count("probe:pushed_while_replaying");
				}
				let v = self.values.fetch_add(1, Ordering::Relaxed) as V + 1;
				ev!("next {v}");
				self.model.lock().unwrap().next(v);
				self.subject.next(v);
			}
			Op::Error => {
				let e = self.values.fetch_add(1, Ordering::Relaxed) as E + 1;
				ev!("error {e}");
				self.model.lock().unwrap().end(Sig::Error(e));
				self.subject.error(e);
			}
			Op::Complete => {
				ev!("complete");
				let first = {
					let mut model = self.model.lock().unwrap();
					let was_finishing = model.finishing;
					model.end(Sig::Complete);
					model.finishing && !was_finishing
				};
				self.subject.complete();
				if first {
					self.model.lock().unwrap().finish();
				}
			}
			Op::UnsubscribeAll => {
				let kind = self.model.lock().unwrap().kind;
				if matches!(kind, Kind::AsyncLast | Kind::AsyncSum) && self.depth.load(Ordering::Relaxed) > 0 {
					// Would tear the result and the completion apart
					return;
				}
				ev!("unsubscribe all");
				count("fault:subject_unsubscribed");
				self.model.lock().unwrap().unsubscribe();
				self.subject.unsubscribe();
			}
			Op::Subscribe(spec) => {
				if self.seen.lock().unwrap().contains_key(&spec.id) {
					return;
				}
				ev!("subscribe {}", spec.id);
				let (probe, seen) = Probe::new(spec.id, self.hook(spec));
				self.seen.lock().unwrap().insert(spec.id, seen);
				if self.model.lock().unwrap().closed() {
					count("probe:late_subscriber");
				}
				self.model.lock().unwrap().subscribe(spec.id, spec.limit);
				self.replaying.fetch_add(1, Ordering::Relaxed);
				let subscription = self.subject.subscribe(probe.with_limit(spec.limit));
				self.replaying.fetch_sub(1, Ordering::Relaxed);
				self.slots.put(spec.id, subscription);
			}
			Op::Unsubscribe(id) => {
				if let Some(mut subscription) = self.slots.take(*id) {
					ev!("unsubscribe {id}");
					count("fault:unsubscribe");
					self.model.lock().unwrap().subs.get_mut(id).unwrap().push(Sig::Unsub);
					subscription.unsubscribe();
					check!(
						subscription.is_closed(),
						"open-after-unsubscribe",
						"the subscription of {id} is not closed after being unsubscribed"
					);
				}
			}
			Op::Drop(id) => {
				if let Some(subscription) = self.slots.take(*id) {
					ev!("drop {id}");
					count("fault:drop_subscription");
					self.model.lock().unwrap().subs.get_mut(id).unwrap().push(Sig::Unsub);
					drop(subscription);
				}
			}
			Op::IsClosed => {
				let real = self.subject.is_closed();
				let expected = self.model.lock().unwrap().closed();
				if self.depth.load(Ordering::Relaxed) > 0 {
					return;
				}
				check!(real == expected, "is-closed", "the subject reports is_closed {real}, expected {expected}");
			}
		}
	}

	fn verify(&self, last: bool) {
		let seen: Vec<Seen> = self.seen.lock().unwrap().values().cloned().collect();
		let model = self.model.lock().unwrap();
		let stored = self.subject.stored();
		if let Some(stored) = stored {
			check!(
				stored == model.stored,
				"stored-values",
				"the subject stores {stored:?}, expected {:?}",
				model.stored
			);
		}
		for seen in seen {
			let sub = &model.subs[&seen.name];
			let log = seen.log();
			let real = seen.signals();
			let expected: Vec<Sig> = sub.expected.iter().filter(|s| **s != Sig::Unsub).cloned().collect();
			if real != expected {
				let kind = if self.push_while_replaying && real.len() < expected.len() {
					"missed-while-replaying"
				} else if real.iter().any(|s| s.is_terminal()) != expected.iter().any(|s| s.is_terminal()) {
					"terminal"
				} else if real.len() < expected.len() {
					"missing"
				} else if real.len() > expected.len() {
					"extra"
				} else {
					"order"
				};
				violation(
					format!("signals-{kind}"),
					format!("subscriber {} observed {log:?} but should have observed {:?}", seen.name, sub.expected),
				);
			}
			seen.check_grammar("the subject");
			if last || !sub.active {
				check!(
					seen.closed(),
					"left-open",
					"subscriber {} should be closed by now, it observed {log:?}",
					seen.name
				);
				check!(
					seen.teardowns() == 1,
					"teardown-count",
					"the teardown of subscriber {} was executed {} times",
					seen.name,
					seen.teardowns()
				);
			} else {
				check!(!seen.closed(), "closed-early", "subscriber {} is closed, nothing asked for that: {log:?}", seen.name);
			}
		}
	}
}

fn program(kinds: &[Kind], terminals: bool, reentrant: bool, push_while_replaying: bool) {
	let kind = pick(kinds);
	let mut generator = Gen { next_sub: 0, terminals, reentrant };
	let length = draw_range(2, 14);
	let ops: Vec<Op> = (0..length).map(|_| generator.op(2)).collect();
	ev!("{kind:?} subject");
	let live = Arc::new(Live {
		subject: make(kind),
		model: Mutex::new(Model::new(kind)),
		seen: Mutex::default(),
		slots: Slots::default(),
		values: AtomicU64::new(0),
		depth: AtomicU64::new(0),
		replaying: AtomicU64::new(0),
		push_while_replaying,
	});
	for op in &ops {
		step("a request on the subject", || live.issue(op));
		live.verify(false);
		if violated() {
			return;
		}
	}
	// Everything is released in the end
	for id in live.slots.ids() {
		let op = if chance(1, 2) { Op::Drop(id) } else { Op::Unsubscribe(id) };
		step("closing a subscription", || live.issue(&op));
	}
	live.verify(true);
}

const TERMINATING: &[Kind] = &[Kind::Publish, Kind::Behavior, Kind::Replay1, Kind::Replay3, Kind::AsyncLast, Kind::AsyncSum];

fn publish() {
	program(&[Kind::Publish], chance(1, 3), true, false);
}

fn late() {
	program(TERMINATING, true, false, false);
}

fn late_reentrant() {
	program(TERMINATING, true, true, false);
}

const REPLAYING: &[Kind] = &[Kind::Behavior, Kind::Replay3, Kind::Replay1, Kind::AsyncLast, Kind::AsyncSum];

fn replaying() {
	program(REPLAYING, chance(1, 2), true, false);
}

fn replaying_pushed() {
	program(&[Kind::Behavior, Kind::Replay3, Kind::Replay1], false, true, true);
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R06",
		worlds: vec![
			World { name: "publish", run: publish, quick: 60_000, thorough: 3_000_000 },
			World { name: "threads", run: crate::subject_threads::values, quick: 40_000, thorough: 2_000_000 },
			World { name: "threads_ending", run: crate::subject_threads::terminals, quick: 40_000, thorough: 2_000_000 },
		],
		rule: "a run that made at least 3 requests",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["fault:reentrant_request"],
	});
	checks.push(Check {
		property: "R07",
		worlds: vec![
			World { name: "late", run: late, quick: 60_000, thorough: 3_000_000 },
			World { name: "late_reentrant", run: late_reentrant, quick: 40_000, thorough: 2_000_000 },
		],
		rule: "a run that made at least 3 requests",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["probe:late_subscriber"],
	});
	checks.push(Check {
		property: "R08",
		worlds: vec![
			World { name: "replaying", run: replaying, quick: 60_000, thorough: 3_000_000 },
			World { name: "replaying_pushed", run: replaying_pushed, quick: 500, thorough: 2_000 },
		],
		rule: "a run that made at least 3 requests",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["fault:reentrant_request"],
	});
}
