//! R17: chains of synchronous operators against reference models.
use crate::common::*;
use rx_core_operator_first::FirstOperatorError;
use std::collections::VecDeque;

/// What an operator of the chain was told by its callbacks
#[derive(Clone, Default)]
pub struct Taps(Arc<Mutex<Vec<(u32, Sig)>>>);

impl Taps {
	fn note(&self, stage: u32, sig: Sig) {
		self.0.lock().unwrap().push((stage, sig));
	}
	fn of(&self, stage: u32) -> Vec<Sig> {
		self.0.lock().unwrap().iter().filter(|(s, _)| *s == stage).map(|(_, s)| s.clone()).collect()
	}
}

#[derive(RxObserver, Clone)]
#[rx_in(V)]
#[rx_in_error(E)]
struct Recorder {
	taps: Taps,
	stage: u32,
}

impl rx_core_common::RxObserver for Recorder {
	fn next(&mut self, next: V) {
		self.taps.note(self.stage, Sig::Next(next));
	}
	fn error(&mut self, error: E) {
		self.taps.note(self.stage, Sig::Error(error));
	}
	fn complete(&mut self) {
		self.taps.note(self.stage, Sig::Complete);
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
	Map,
	MapInto,
	MapError,
	Filter(V),
	FilterMap(V),
	Take(usize),
	Skip(usize),
	Scan,
	Reduce,
	Count,
	Pairwise,
	Buffer(usize),
	First,
	Find(V),
	FindIndex(V),
	ElementAt(usize),
	ElementAtOr(usize),
	IsEmpty,
	StartWith(V),
	EndWith(V),
	Enumerate,
	LiftOption(V),
	IntoResult,
	LiftResult(V),
	Materialize,
	Dematerialize,
	MaterializeRoundtrip,
	Tap,
	TapNext,
	OnNext(V),
	OnSubscribe(V),
	Finalize,
	Identity,
	Boundary,
	CatchJust,
	CatchMany,
	Fused(Vec<Op>),
	Piped(usize, V),
}

#[derive(Clone, Debug)]
pub struct Stage {
	pub id: u32,
	pub op: Op,
}

impl Op {
	/// Can end while upstream is still going
	fn ends_early(&self) -> bool {
		match self {
			Op::Take(_) | Op::First | Op::Find(_) | Op::FindIndex(_) | Op::ElementAt(_) | Op::ElementAtOr(_) | Op::IsEmpty => true,
			Op::LiftResult(_) | Op::Dematerialize | Op::MaterializeRoundtrip => true,
			Op::Fused(ops) => ops.iter().any(Op::ends_early),
			_ => false,
		}
	}
	fn swallows_errors(&self) -> bool {
		match self {
			Op::IntoResult | Op::Boundary => true,
			Op::Fused(ops) => ops.iter().any(Op::swallows_errors),
			_ => false,
		}
	}
}

fn bad(v: V, k: V) -> bool {
	v.rem_euclid(k) == 0
}

fn fold(vs: &[V]) -> V {
	vs.iter().fold(vs.len() as V, |a, v| a.wrapping_mul(5).wrapping_add(*v))
}

fn first_error(e: FirstOperatorError<E>) -> E {
	match e {
		FirstOperatorError::NoNextObservedBeforeComplete => 9001,
		FirstOperatorError::Upstream(e) => e,
	}
}

fn find_error(e: FindOperatorError<E>) -> E {
	match e {
		FindOperatorError::NoNextObservedBeforeComplete => 9002,
		FindOperatorError::NoMatchObserved => 9003,
		FindOperatorError::Upstream(e) => e,
	}
}

fn find_index_error(e: FindIndexOperatorError<E>) -> E {
	match e {
		FindIndexOperatorError::NoNextObservedBeforeComplete => 9004,
		FindIndexOperatorError::NoMatchObserved => 9005,
		FindIndexOperatorError::Upstream(e) => e,
	}
}

fn element_at_error(e: ElementAtOperatorError<E>) -> E {
	match e {
		ElementAtOperatorError::IndexOutOfRange { requested_index, observed_nexts } => {
			9100 + (requested_index * 10 + observed_nexts) as E
		}
		ElementAtOperatorError::Upstream(e) => e,
	}
}

fn code(n: ObserverNotification<V, E>) -> V {
	match n {
		ObserverNotification::Next(v) => v.wrapping_mul(2),
		ObserverNotification::Error(e) => 7000 + e as V,
		ObserverNotification::Complete => 6000,
	}
}

/// Values that are multiples of k stand for terminals
fn decode(v: V, k: V) -> ObserverNotification<V, E> {
	if bad(v, k) {
		if v % 2 == 0 { ObserverNotification::Complete } else { ObserverNotification::Error(500) }
	} else {
		ObserverNotification::Next(v)
	}
}

impl Stage {
	pub fn draw(id: u32, depth: u32) -> Stage {
		let k = draw_range(2, 4) as V;
		let n = draw(5) as usize;
		let op = match draw(if depth == 0 { 38 } else { 36 }) {
			0 => Op::Map,
			1 => Op::MapInto,
			2 => Op::MapError,
			3 => Op::Filter(k),
			4 => Op::FilterMap(k),
			5 => Op::Take(n),
			6 => Op::Skip(n),
			7 => Op::Scan,
			8 => Op::Reduce,
			9 => Op::Count,
			10 => Op::Pairwise,
			11 => Op::Buffer(n + 1),
			12 => Op::First,
			13 => Op::Find(k),
			14 => Op::FindIndex(k),
			15 => Op::ElementAt(n),
			16 => Op::ElementAtOr(n),
			17 => Op::IsEmpty,
			18 => Op::StartWith(k),
			19 => Op::EndWith(k),
			20 => Op::Enumerate,
			21 => Op::LiftOption(k),
			22 => Op::IntoResult,
			23 => Op::LiftResult(k + 3),
			24 => Op::Materialize,
			25 => Op::Dematerialize,
			26 => Op::MaterializeRoundtrip,
			27 => Op::Tap,
			28 => Op::TapNext,
			29 => Op::OnNext(k),
			30 => Op::OnSubscribe(k),
			31 => Op::Finalize,
			32 => Op::Identity,
			33 => Op::Boundary,
			34 => Op::CatchJust,
			35 => Op::CatchMany,
			36 => Op::Piped(n, k),
			_ => {
				let a = pick(&[Op::Skip(n), Op::Filter(k), Op::Pairwise, Op::StartWith(k)]).clone();
				let b = pick(&[Op::Map, Op::Scan, Op::Enumerate, Op::IntoResult]).clone();
				let c = pick(&[Op::Take(n), Op::EndWith(k), Op::First, Op::Buffer(n + 1)]).clone();
				Op::Fused(vec![a, b, c])
			}
		};
		Stage { id, op }
	}

	pub fn build(&self, source: Dyn, taps: &Taps) -> Dyn {
		let id = self.id;
		match self.op.clone() {
			Op::Map => Dyn::new(source.map(|v| v.wrapping_mul(3).wrapping_add(1))),
			Op::MapInto => Dyn::new(source.map_into::<V, E>()),
			Op::MapError => Dyn::new(source.map_error(|e| e + 100)),
			Op::Filter(k) => Dyn::new(source.filter(move |v, i| !bad(*v + i as V, k))),
			Op::FilterMap(k) => {
				Dyn::new(source.filter_map(move |v| if bad(v, k) { None } else { Some(v.wrapping_add(k)) }))
			}
			Op::Take(n) => Dyn::new(source.take(n)),
			Op::Skip(n) => Dyn::new(source.skip(n)),
			Op::Scan => Dyn::new(source.scan(|a: &V, v| a.wrapping_mul(2).wrapping_add(v), 1)),
			Op::Reduce => Dyn::new(source.reduce(|a: &V, v| a.wrapping_mul(2).wrapping_add(v), 1)),
			Op::Count => Dyn::new(source.count().map(|n| n as V)),
			Op::Pairwise => Dyn::new(source.pairwise().map(|p| fold(&p))),
			Op::Buffer(n) => Dyn::new(source.buffer_count(n).map(|b| fold(&b))),
			Op::First => Dyn::new(source.first().map_error(first_error)),
			Op::Find(k) => Dyn::new(source.find(move |v| bad(*v, k)).map_error(find_error)),
			Op::FindIndex(k) => {
				Dyn::new(source.find_index(move |v| bad(*v, k)).map(|n| n as V).map_error(find_index_error))
			}
			Op::ElementAt(n) => Dyn::new(source.element_at(n).map_error(element_at_error)),
			Op::ElementAtOr(n) => {
				Dyn::new(source.element_at_or_else(n, ProvideWithCloneOf(-9)).map_error(element_at_error))
			}
			Op::IsEmpty => Dyn::new(source.is_empty().map(|b| b as V)),
			Op::StartWith(v) => Dyn::new(source.start_with(v)),
			Op::EndWith(v) => Dyn::new(source.end_with(v)),
			Op::Enumerate => Dyn::new(source.enumerate().map(|(v, n)| v.wrapping_mul(10).wrapping_add(n as V))),
			Op::LiftOption(k) => Dyn::new(source.map(move |v| if bad(v, k) { None } else { Some(v) }).lift_option()),
			Op::IntoResult => Dyn::new(
				source
					.into_result()
					.map(|r| match r {
						Ok(v) => v,
						Err(e) => 8000 + e as V,
					})
					.map_never(),
			),
			Op::LiftResult(k) => Dyn::make(move || {
				source
					.clone()
					.into_result()
					.map(move |r| match r {
						Ok(v) if bad(v, k) => Err(300),
						r => r,
					})
					.lift_result()
			}),
			Op::Materialize => Dyn::new(source.materialize().map(code).map_never()),
			Op::Dematerialize => Dyn::new(
				source
					.into_result()
					.map(|r| match r {
						Ok(v) => decode(v, 7),
						Err(e) => ObserverNotification::Error(e),
					})
					.dematerialize(),
			),
			Op::MaterializeRoundtrip => Dyn::new(source.materialize().dematerialize()),
			Op::Tap => Dyn::new(source.tap(Recorder { taps: taps.clone(), stage: id })),
			Op::TapNext => {
				let taps = taps.clone();
				Dyn::new(source.tap_next(move |v| taps.note(id, Sig::Next(*v))))
			}
			Op::OnNext(k) => Dyn::new(source.on_next(
				move |v: &V, destination: &mut dyn Subscriber<In = V, InError = E>| {
					if bad(*v, k) {
						destination.next(v.wrapping_add(1000));
					}
					!bad(*v, k + 1)
				},
			)),
			Op::OnSubscribe(k) => {
				let taps = taps.clone();
				Dyn::new(OnSubscribeAgain { source, taps, id, k })
			}
			Op::Finalize => {
				let taps = taps.clone();
				Dyn::new(source.finalize(move || taps.note(id, Sig::Unsub)))
			}
			Op::Identity => Dyn::make(move || source.clone().pipe(IdentityOperator::default())),
			Op::Boundary => Dyn::new(
				source
					.into_result()
					.error_boundary()
					.map(|r| match r {
						Ok(v) => v,
						Err(e) => 8000 + e as V,
					})
					.map_never(),
			),
			Op::CatchJust => Dyn::new(source.catch(|e| just(e as V + 4000)).map_never()),
			Op::CatchMany => Dyn::new(source.catch(|e: E| {
				let e = e as V;
				IteratorObservable::new(vec![e, e + 1, e + 2]).map_never()
			})),
			Op::Fused(ops) => fused(source, &ops),
			Op::Piped(n, k) => Dyn::make(move || {
				source.clone().pipe(
					compose_operator::<V, E>()
						.skip(n)
						.filter(move |v, i| !bad(*v + i as V, k))
						.map(|v: V| v.wrapping_mul(3).wrapping_add(1))
						.end_with(77),
				)
			}),
		}
	}

	pub fn model(&self) -> Box<dyn Model> {
		let id = self.id;
		match self.op.clone() {
			Op::Fused(ops) => Box::new(Chain::new(
				ops.iter().map(|op| Stage { id: 1000, op: op.clone() }).collect::<Vec<_>>().as_slice(),
			)),
			Op::Piped(n, k) => Box::new(Chain::new(
				[Op::Skip(n), Op::Filter(k), Op::Map, Op::EndWith(77)]
					.iter()
					.map(|op| Stage { id: 1000, op: op.clone() })
					.collect::<Vec<_>>()
					.as_slice(),
			)),
			op => Box::new(Simple { id, op, n: 0, acc: vec![], done: false }),
		}
	}
}

/// `on_subscribe` is only clonable when what it calls is, subscribe to a
/// fresh one every time.
#[derive(RxObservable, Clone)]
#[rx_out(V)]
#[rx_out_error(E)]
struct OnSubscribeAgain {
	source: Dyn,
	taps: Taps,
	id: u32,
	k: V,
}

impl Observable for OnSubscribeAgain {
	type Subscription<Destination>
		= ErasedSubscription
	where
		Destination: 'static + Subscriber<In = V, InError = E>;

	fn subscribe<Destination>(&mut self, destination: Destination) -> Self::Subscription<Destination::Upgraded>
	where
		Destination: 'static + UpgradeableObserver<In = V, InError = E> + Send + Sync,
	{
		let (taps, id, k) = (self.taps.clone(), self.id, self.k);
		ErasedSubscription::new(
			self.source
				.clone()
				.on_subscribe(move |destination: &mut dyn Subscriber<In = V, InError = E>| {
					taps.note(id, Sig::Next(k));
					if k != 3 {
						destination.next(k * 100);
					}
				})
				.subscribe(destination),
		)
	}
}

/// Chains without erasure between its operators
fn fused(source: Dyn, ops: &[Op]) -> Dyn {
	macro_rules! last {
		($s:expr, $op:expr) => {{
			let s = $s;
			match $op.clone() {
				Op::Take(n) => Dyn::new(s.take(n)),
				Op::EndWith(v) => Dyn::new(s.end_with(v)),
				Op::First => Dyn::new(s.first().map_error(first_error)),
				Op::Buffer(n) => Dyn::new(s.buffer_count(n).map(|b| fold(&b))),
				_ => unreachable!(),
			}
		}};
	}
	macro_rules! mid {
		($s:expr) => {{
			let s = $s;
			match &ops[1] {
				Op::Map => last!(s.map(|v: V| v.wrapping_mul(3).wrapping_add(1)), ops[2]),
				Op::Scan => last!(s.scan(|a: &V, v: V| a.wrapping_mul(2).wrapping_add(v), 1), ops[2]),
				Op::Enumerate => {
					last!(s.enumerate().map(|(v, n): (V, usize)| v.wrapping_mul(10).wrapping_add(n as V)), ops[2])
				}
				Op::IntoResult => last!(
					s.into_result()
						.map(|r: Result<V, E>| match r {
							Ok(v) => v,
							Err(e) => 8000 + e as V,
						})
						.map_error(|_| -> E { 0 }),
					ops[2]
				),
				_ => unreachable!(),
			}
		}};
	}
	match ops[0].clone() {
		Op::Skip(n) => mid!(source.skip(n)),
		Op::Filter(k) => mid!(source.filter(move |v: &V, i: usize| !bad(*v + i as V, k))),
		Op::Pairwise => mid!(source.pairwise().map(|p: [V; 2]| fold(&p))),
		Op::StartWith(v) => mid!(source.start_with(v)),
		_ => unreachable!(),
	}
}

// ───────────────────────── models

pub trait Model: Send {
	/// What it emits when subscribed to
	fn start(&mut self, _taps: &mut BTreeMap<u32, Vec<Sig>>) -> Vec<Sig> {
		vec![]
	}
	fn push(&mut self, sig: Sig, taps: &mut BTreeMap<u32, Vec<Sig>>) -> Vec<Sig>;
}

struct Simple {
	id: u32,
	op: Op,
	n: usize,
	acc: Vec<V>,
	done: bool,
}

impl Model for Simple {
	fn start(&mut self, taps: &mut BTreeMap<u32, Vec<Sig>>) -> Vec<Sig> {
		match self.op {
			Op::StartWith(v) => vec![Sig::Next(v)],
			Op::OnSubscribe(k) => {
				taps.entry(self.id).or_default().push(Sig::Next(k));
				if k != 3 { vec![Sig::Next(k * 100)] } else { vec![] }
			}
			Op::Take(0) => vec![Sig::Complete],
			_ => vec![],
		}
	}

	fn push(&mut self, sig: Sig, taps: &mut BTreeMap<u32, Vec<Sig>>) -> Vec<Sig> {
		use Sig::*;
		let n = self.n;
		if matches!(sig, Next(_)) {
			self.n += 1;
		}
		let same = vec![sig.clone()];
		match (self.op.clone(), sig) {
			(_, Unsub) => vec![Unsub],
			(Op::Map, Next(v)) => vec![Next(v.wrapping_mul(3).wrapping_add(1))],
			(Op::MapError, Error(e)) => vec![Error(e + 100)],
			(Op::Filter(k), Next(v)) if bad(v + n as V, k) => vec![],
			(Op::FilterMap(k), Next(v)) => {
				if bad(v, k) {
					vec![]
				} else {
					vec![Next(v.wrapping_add(k))]
				}
			}
			(Op::Take(t), Next(v)) => {
				if n + 1 < t {
					vec![Next(v)]
				} else if n + 1 == t {
					vec![Next(v), Complete]
				} else {
					vec![]
				}
			}
			(Op::Skip(t), Next(_)) if n < t => vec![],
			(Op::Scan, Next(v)) => {
				let a = self.acc.pop().unwrap_or(1).wrapping_mul(2).wrapping_add(v);
				self.acc = vec![a];
				vec![Next(a)]
			}
			(Op::Reduce, Next(v)) => {
				let a = self.acc.pop().unwrap_or(1).wrapping_mul(2).wrapping_add(v);
				self.acc = vec![a];
				vec![]
			}
			(Op::Reduce, Complete) => vec![Next(self.acc.first().copied().unwrap_or(1)), Complete],
			(Op::Count, Next(_)) => vec![],
			(Op::Count, Complete) => vec![Next(n as V), Complete],
			(Op::Pairwise, Next(v)) => {
				let last = self.acc.pop();
				self.acc = vec![v];
				last.map(|l| Next(fold(&[l, v]))).into_iter().collect()
			}
			(Op::Buffer(size), Next(v)) => {
				self.acc.push(v);
				if self.acc.len() == size { vec![Next(fold(&std::mem::take(&mut self.acc)))] } else { vec![] }
			}
			(Op::Buffer(_), Complete) => {
				if self.acc.is_empty() {
					vec![Complete]
				} else {
					vec![Next(fold(&self.acc)), Complete]
				}
			}
			(Op::First, Next(v)) => vec![Next(v), Complete],
			(Op::First, Complete) => vec![Error(9001)],
			(Op::Find(k), Next(v)) => {
				if bad(v, k) {
					vec![Next(v), Complete]
				} else {
					vec![]
				}
			}
			(Op::Find(_), Complete) => vec![Error(if n == 0 { 9002 } else { 9003 })],
			(Op::FindIndex(k), Next(v)) => {
				if bad(v, k) {
					vec![Next(n as V), Complete]
				} else {
					vec![]
				}
			}
			(Op::FindIndex(_), Complete) => vec![Error(if n == 0 { 9004 } else { 9005 })],
			(Op::ElementAt(i) | Op::ElementAtOr(i), Next(v)) => {
				if n == i {
					vec![Next(v), Complete]
				} else {
					vec![]
				}
			}
			(Op::ElementAt(i), Complete) => vec![Error(9100 + (i * 10 + n) as E)],
			(Op::ElementAtOr(_), Complete) => vec![Next(-9), Complete],
			(Op::IsEmpty, Next(_)) => vec![Next(0), Complete],
			(Op::IsEmpty, Complete) => vec![Next(1), Complete],
			(Op::EndWith(v), Complete) => vec![Next(v), Complete],
			(Op::Enumerate, Next(v)) => vec![Next(v.wrapping_mul(10).wrapping_add(n as V))],
			(Op::LiftOption(k), Next(v)) if bad(v, k) => vec![],
			(Op::IntoResult | Op::Boundary, Error(e)) => vec![Next(8000 + e as V)],
			(Op::LiftResult(k), Next(v)) if bad(v, k) => vec![Error(300)],
			(Op::Materialize, Next(v)) => vec![Next(v.wrapping_mul(2))],
			(Op::Materialize, Error(e)) => vec![Next(7000 + e as V), Complete],
			(Op::Materialize, Complete) => vec![Next(6000), Complete],
			(Op::Dematerialize, Next(v)) if bad(v, 7) => {
				if v % 2 == 0 {
					vec![Complete]
				} else {
					vec![Error(500)]
				}
			}
			(Op::Tap, sig) => {
				taps.entry(self.id).or_default().push(sig);
				same
			}
			(Op::TapNext, Next(v)) => {
				taps.entry(self.id).or_default().push(Next(v));
				same
			}
			(Op::OnNext(k), Next(v)) => {
				let mut out = vec![];
				if bad(v, k) {
					out.push(Next(v.wrapping_add(1000)));
				}
				if !bad(v, k + 1) {
					out.push(Next(v));
				}
				out
			}
			(Op::CatchJust, Error(e)) => vec![Next(e as V + 4000), Complete],
			(Op::CatchMany, Error(e)) => {
				let e = e as V;
				vec![Next(e), Next(e + 1), Next(e + 2), Complete]
			}
			_ => {
				let _ = self.done;
				same
			}
		}
	}
}

/// Stages one after the other, an operator whose output ended emits nothing
/// any more.
pub struct Chain {
	stages: Vec<Box<dyn Model>>,
	ended: Vec<bool>,
	/// An error was turned into a value, nothing more will come yet it stays
	/// open
	swallowed: bool,
}

impl Chain {
	pub fn new(stages: &[Stage]) -> Chain {
		Chain { stages: stages.iter().map(Stage::model).collect(), ended: vec![false; stages.len()], swallowed: false }
	}

	fn feed(&mut self, at: usize, sigs: Vec<Sig>, taps: &mut BTreeMap<u32, Vec<Sig>>, out: &mut Vec<Sig>) {
		for sig in sigs {
			if at == self.stages.len() {
				out.push(sig);
				continue;
			}
			if self.ended[at] || self.ended.last() == Some(&true) {
				break;
			}
			let error = matches!(sig, Sig::Error(_));
			let emitted = self.stages[at].push(sig, taps);
			self.swallowed |= error && !emitted.iter().any(Sig::is_terminal);
			self.emit(at, emitted, taps, out);
		}
	}

	/// What stage `at` emitted
	fn emit(&mut self, at: usize, emitted: Vec<Sig>, taps: &mut BTreeMap<u32, Vec<Sig>>, out: &mut Vec<Sig>) {
		for sig in emitted {
			if self.ended[at] || self.ended.last() == Some(&true) {
				break;
			}
			self.ended[at] = sig == Sig::Unsub || sig.is_terminal();
			self.feed(at + 1, vec![sig], taps, out);
		}
	}
}

impl Model for Chain {
	fn start(&mut self, taps: &mut BTreeMap<u32, Vec<Sig>>) -> Vec<Sig> {
		let mut out = vec![];
		for at in (0..self.stages.len()).rev() {
			let emitted = self.stages[at].start(taps);
			self.emit(at, emitted, taps, &mut out);
		}
		out
	}

	fn push(&mut self, sig: Sig, taps: &mut BTreeMap<u32, Vec<Sig>>) -> Vec<Sig> {
		let mut out = vec![];
		if sig == Sig::Unsub {
			if self.ended.last() != Some(&true) {
				self.ended.fill(true);
				out.push(sig);
			}
		} else {
			self.feed(0, vec![sig], taps, &mut out);
		}
		out
	}
}

// ───────────────────────── world

#[derive(Clone, Debug)]
pub enum Source {
	Subject,
	Behavior(V),
	/// Values, then what it ends with
	Iterator(Vec<V>),
	Create(Vec<Sig>),
	Just(V),
	Empty,
	Throw(E),
	Never,
	Closed,
}

impl Source {
	pub fn draw() -> Source {
		match weighted(&[8, 2, 2, 2, 1, 1, 1, 1, 1]) {
			0 => Source::Subject,
			1 => Source::Behavior(draw(6) as V),
			2 => Source::Iterator((0..draw(7)).map(|_| draw(12) as V).collect()),
			3 => {
				let mut sigs: Vec<Sig> = (0..draw(6)).map(|_| Sig::Next(draw(12) as V)).collect();
				match draw(3) {
					0 => sigs.push(Sig::Complete),
					1 => sigs.push(Sig::Error(draw(9) as E)),
					_ => {}
				}
				Source::Create(sigs)
			}
			4 => Source::Just(draw(6) as V),
			5 => Source::Empty,
			6 => Source::Throw(draw(6) as E),
			7 => Source::Never,
			_ => Source::Closed,
		}
	}

	/// What is observed while subscribing
	pub fn cold(&self) -> Vec<Sig> {
		match self {
			Source::Subject | Source::Never => vec![],
			Source::Behavior(v) => vec![Sig::Next(*v)],
			Source::Iterator(vs) => {
				let mut sigs: Vec<Sig> = vs.iter().map(|v| Sig::Next(*v)).collect();
				sigs.push(Sig::Complete);
				sigs
			}
			Source::Create(sigs) => sigs.clone(),
			Source::Just(v) => vec![Sig::Next(*v), Sig::Complete],
			Source::Empty => vec![Sig::Complete],
			Source::Throw(e) => vec![Sig::Error(*e)],
			Source::Closed => vec![Sig::Unsub],
		}
	}

	pub fn hot(&self) -> bool {
		matches!(self, Source::Subject | Source::Behavior(_))
	}

	pub fn build(&self, subject: &PublishSubject<V, E>, behavior: &BehaviorSubject<V, E>) -> Dyn {
		match self.clone() {
			Source::Subject => Dyn::new(subject.clone()),
			Source::Behavior(_) => Dyn::new(behavior.clone()),
			Source::Iterator(vs) => Dyn::new(IteratorObservable::new(vs).map_never()),
			Source::Create(sigs) => Dyn::new(create_observable(
				move |destination: &mut dyn Subscriber<In = V, InError = E>| {
					for sig in sigs {
						if destination.is_closed() {
							break;
						}
						match sig {
							Sig::Next(v) => destination.next(v),
							Sig::Error(e) => destination.error(e),
							_ => destination.complete(),
						}
					}
				},
			)),
			Source::Just(v) => Dyn::new(just(v).map_never()),
			Source::Empty => Dyn::new(empty().map_never_both()),
			Source::Throw(e) => Dyn::new(throw(e).map_never()),
			Source::Never => Dyn::new(never().map_never_both()),
			Source::Closed => Dyn::new(closed().map_never_both()),
		}
	}
}

struct Expected {
	chain: Chain,
	taps: BTreeMap<u32, Vec<Sig>>,
	log: Vec<Sig>,
	closed: bool,
	/// Pushes waiting for the current one to finish
	queue: VecDeque<Sig>,
}

impl Expected {
	fn push(&mut self, sig: Sig) {
		if self.closed {
			return;
		}
		let out = self.chain.push(sig, &mut self.taps);
		self.observe(out);
	}
	fn observe(&mut self, out: Vec<Sig>) {
		for sig in out {
			if self.closed {
				break;
			}
			self.closed = sig == Sig::Unsub || sig.is_terminal();
			if sig != Sig::Unsub {
				self.log.push(sig);
			}
		}
	}
}

fn world() {
	let mut stages: Vec<Stage> = vec![];
	for id in 0..draw_range(1, 5) {
		let stage = Stage::draw(id, 0);
		// Those turning errors into values stay open, and if it wasn't the
		// source that ended then nothing closes it (see `swallowed`)
		if stage.op.swallows_errors() && stages.iter().any(|s| s.op.ends_early()) {
			continue;
		}
		stages.push(stage);
	}
	let source = Source::draw();
	ev!("{source:?} {stages:?}");
	let subject = PublishSubject::<V, E>::default();
	let behavior = BehaviorSubject::<V, E>::new(match source {
		Source::Behavior(v) => v,
		_ => 0,
	});
	let taps = Taps::default();
	let (upstream, downstream) = (Tally::default(), Tally::default());
	let mut pipeline = {
		let on = upstream.on();
		Dyn::new(source.build(&subject, &behavior).finalize(on))
	};
	if chance(1, 4) {
		let inner = pipeline.clone();
		pipeline = Dyn::make(move || {
			let inner = inner.clone();
			deferred_observable(move || inner.clone())
		});
	}
	for stage in &stages {
		pipeline = stage.build(pipeline, &taps);
	}
	let mut pipeline = Dyn::new(pipeline.finalize(downstream.on()));

	// The second subscriber must not be affected by the first
	let subscribers = if chance(1, 3) { 2 } else { 1 };
	let mut expected: Vec<Expected> = vec![];
	let mut seen = vec![];
	let slots = Slots::default();
	let mut resources = vec![];
	let mut subscribe_next = |expected: &mut Vec<Expected>, seen: &mut Vec<Seen>, resources: &mut Vec<Tally>, stopped: bool| {
		let id = expected.len() as u32;
		let mut e = Expected {
			chain: Chain::new(&stages),
			taps: BTreeMap::new(),
			log: vec![],
			closed: false,
			queue: VecDeque::new(),
		};
		let out = e.chain.start(&mut e.taps);
		e.observe(out);
		if !stopped {
			let mut cold = source.cold();
			if let (Source::Behavior(_), Some(Sig::Next(v))) = (&source, cold.first_mut()) {
				*v = behavior.value();
			}
			for sig in cold {
				e.push(sig);
			}
		}
		expected.push(e);
		let (observer, s) = Plain::new(id, None);
		seen.push(s);
		let Some(mut subscription) = step("subscribe", || ErasedSubscription::new(pipeline.subscribe(observer))) else {
			return;
		};
		let tally = Tally::default();
		subscription.add_teardown(Teardown::new(tally.on()));
		resources.push(tally);
		slots.put(id, subscription);
	};
	subscribe_next(&mut expected, &mut seen, &mut resources, false);
	let mut stopped: Option<Sig> = None;
	for _ in 0..draw_range(2, 14) {
		compare(&expected, &seen, &slots, &resources);
		if violated() {
			return;
		}
		let choice = weighted(&[20, 2, 2, 1, 3, 1, if expected.len() < subscribers { 5 } else { 0 }]);
		match choice {
			0..=3 => {
				let sig = match choice {
					0 => Sig::Next(draw(14) as V),
					1 => Sig::Complete,
					2 => Sig::Error(draw(9) as E),
					_ => Sig::Unsub,
				};
				if !source.hot() {
					continue;
				}
				ev!("source {sig:?}");
				if stopped.is_some() {
					count("fault:push_after_end");
				}
				step("push", || {
					let (mut s, mut b) = (subject.clone(), behavior.clone());
					macro_rules! both {
						($f:ident $(, $a:expr)?) => {
							if matches!(source, Source::Subject) { s.$f($($a)?) } else { b.$f($($a)?) }
						};
					}
					match sig.clone() {
						Sig::Next(v) => both!(next, v),
						Sig::Error(e) => both!(error, e),
						Sig::Complete => both!(complete),
						Sig::Unsub => both!(unsubscribe),
					}
				});
				if stopped.is_none() || sig == Sig::Unsub {
					for e in &mut expected {
						e.push(sig.clone());
					}
					if !matches!(sig, Sig::Next(_)) && stopped.is_none() {
						stopped = Some(sig);
					}
				}
			}
			4 | 5 => {
				let id = draw(expected.len() as u32);
				let Some(mut subscription) = slots.take(id) else { continue };
				count("fault:unsubscribe");
				ev!("unsubscribe {id}");
				step("unsubscribe", || {
					if choice == 4 {
						subscription.unsubscribe();
						slots.put(id, subscription);
					} else {
						drop(subscription);
					}
				});
				expected[id as usize].closed = true;
			}
			_ => {
				if stopped.is_some() && source.hot() {
					continue;
				}
				count("probe:second_subscriber");
				subscribe_next(&mut expected, &mut seen, &mut resources, false);
			}
		}
	}
	compare(&expected, &seen, &slots, &resources);
	if violated() {
		return;
	}
	let closed = expected.iter().filter(|e| e.closed).count() as u64;
	let or_closed = expected.iter().filter(|e| e.closed || e.chain.swallowed).count() as u64;
	for (what, tally) in [("upstream", &upstream), ("downstream", &downstream)] {
		check!(
			(closed..=or_closed).contains(&tally.get()),
			format!("{what}-teardown"),
			"{} of {} subscriptions closed but the {what} resources were released {} times",
			closed,
			expected.len(),
			tally.get()
		);
	}
	for stage in &stages {
		let got = taps.of(stage.id);
		match stage.op {
			Op::Finalize => check!(
				(closed..=or_closed).contains(&(got.len() as u64)),
				"finalize",
				"{closed} subscriptions closed but finalize of stage {} was called {} times",
				stage.id,
				got.len()
			),
			Op::Tap | Op::TapNext | Op::OnSubscribe(_) if expected.len() == 1 => {
				let want = expected[0].taps.get(&stage.id).cloned().unwrap_or_default();
				let ok = if expected[0].closed { got.starts_with(&want) } else { got == want };
				check!(ok, "tap", "stage {} of {stages:?} saw {got:?} instead of {want:?}", stage.id);
			}
			_ => {}
		}
	}
	step("drop", || slots.clear());
	check!(
		upstream.get() == expected.len() as u64 && downstream.get() == expected.len() as u64,
		"teardown-at-drop",
		"{} subscriptions were dropped, but resources were only released {}/{} times",
		expected.len(),
		upstream.get(),
		downstream.get()
	);
}

/// Something that ended on its own, whose end is then turned into an error,
/// which is then turned into a value.
fn swallowed() {
	let ending = pick(&[Op::Take(2), Op::First, Op::ElementAt(1), Op::IsEmpty, Op::Find(2)]);
	let failing = pick(&[Op::ElementAt(3), Op::Find(5), Op::FindIndex(5)]);
	let stages = [ending, failing, Op::IntoResult].map(|op| Stage { id: 0, op });
	ev!("{stages:?}");
	let mut subject = PublishSubject::<V, E>::default();
	let released = Tally::default();
	let taps = Taps::default();
	let mut pipeline = Dyn::new(subject.clone().finalize(released.on()));
	for stage in &stages {
		pipeline = stage.build(pipeline, &taps);
	}
	let (observer, seen) = Plain::new(0, None);
	let subscription = step("subscribe", || pipeline.subscribe(observer));
	for v in [1, 2, 4, 7] {
		step("next", || subject.next(v));
	}
	step("complete", || subject.complete());
	step("drop", || drop(subscription));
	check!(
		released.get() == 1,
		"leak-after-swallowed-error",
		"the subscription was dropped, but its resources were released {} times, observed {:?}",
		released.get(),
		seen.log()
	);
}

fn compare(expected: &[Expected], seen: &[Seen], slots: &Slots, resources: &[Tally]) {
	for (e, s) in expected.iter().zip(seen) {
		let log = s.log();
		s.check_grammar("a pipeline");
		check!(log == e.log, "wrong-output", "observer {} observed {log:?} instead of {:?}", s.name, e.log);
		if violated() {
			return;
		}
		check!(
			resources[s.name as usize].get() == e.closed as u64 || (e.chain.swallowed && resources[s.name as usize].get() == 1),
			"subscription-teardown",
			"the subscription of observer {} is {}closed, but its teardown ran {} times",
			s.name,
			if e.closed { "" } else { "not " },
			resources[s.name as usize].get()
		);
		if let Some(subscription) = slots.take(s.name) {
			let closed = subscription.is_closed();
			slots.put(s.name, subscription);
			check!(
				closed == e.closed || (closed && e.chain.swallowed),
				"is-closed",
				"the subscription of observer {} says closed: {closed}, but it's {}",
				s.name,
				e.closed
			);
		}
	}
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R17",
		worlds: vec![
			World { name: "operators", run: world, quick: 60_000, thorough: 3_000_000 },
			World { name: "swallowed", run: swallowed, quick: 100, thorough: 100 },
		],
		rule: "the signals observed, the closedness of the subscription and the resources released are compared after every step \
			with a reference model of the operator chain",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["probe:second_subscriber", "fault:unsubscribe", "fault:push_after_end"],
	});
}
