//! R11–R14: operators and observables driven by a scheduler.
//!
//! The model is an executor with a queue, like in scheduler.rs, and a chain of
//! nodes. Node 0 is the source, the one after the last is the observer. Nodes
//! that signal from scheduled work have a link to the next one that defers
//! whatever happens while it's being used.
use crate::common::*;
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stage {
	Map,
	Take(usize),
	Delay(u64),
	ObserveOn,
	SubscribeOn(u64),
	Debounce(u64),
	Throttle(u64, ThrottleOutputBehavior),
	Fallback,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Src {
	Hot,
	Cold(Vec<V>, Option<E>),
	Interval { every: u64, start: bool, max: usize },
	Timer(u64),
	OnTick { items: Vec<V>, nth: usize, start: bool },
}

const DURATIONS: [u64; 6] = [10, 0, 5, 10, 20, 30];

impl Stage {
	fn draw(weights: &[u32; 8]) -> Stage {
		match weighted(weights) {
			0 => Stage::Map,
			1 => Stage::Take(pick(&[2, 1, 3, 0])),
			2 => Stage::Delay(pick(&DURATIONS)),
			3 => Stage::ObserveOn,
			4 => Stage::SubscribeOn(pick(&[0, 10, 25])),
			5 => Stage::Debounce(pick(&DURATIONS)),
			6 => Stage::Throttle(
				pick(&DURATIONS),
				pick(&[
					ThrottleOutputBehavior::LeadingAndTrailing,
					ThrottleOutputBehavior::LeadingOnly,
					ThrottleOutputBehavior::TrailingOnly,
				]),
			),
			_ => Stage::Fallback,
		}
	}

	fn build(self, source: Dyn, handle: &Handle, called: &Tally) -> Dyn {
		let handle = handle.clone();
		let called = called.clone();
		match self {
			Stage::Map => Dyn::make(move || source.clone().map(|v| v + 1000)),
			Stage::Take(n) => Dyn::make(move || source.clone().take(n)),
			Stage::Delay(d) => Dyn::make(move || source.clone().delay(ms(d), handle.clone())),
			Stage::ObserveOn => Dyn::make(move || source.clone().observe_on(handle.clone())),
			Stage::SubscribeOn(d) => {
				Dyn::make(move || source.clone().subscribe_on_with_delay(ms(d), handle.clone()))
			}
			Stage::Debounce(d) => Dyn::make(move || source.clone().debounce_time(ms(d), handle.clone())),
			Stage::Throttle(d, output) => Dyn::make(move || {
				source.clone().throttle_time(ThrottleTimeOptions::new(ms(d)).with_output(output), handle.clone())
			}),
			Stage::Fallback => Dyn::make(move || {
				let called = called.clone();
				source.clone().fallback_when_silent(
					move |_, _, index| {
						called.hit();
						-(index as V) - 1
					},
					handle.clone(),
				)
			}),
		}
	}
}

impl Src {
	fn draw(weights: &[u32; 5]) -> Src {
		match weighted(weights) {
			0 => Src::Hot,
			1 => Src::Cold((0..draw(5)).map(|_| draw(90) as V).collect(), chance(1, 4).then(|| draw(9) as E)),
			2 => Src::Interval { every: pick(&[10, 3, 5, 25]), start: chance(1, 2), max: pick(&[10, 1, 2, 0]) },
			3 => Src::Timer(pick(&DURATIONS)),
			_ => Src::OnTick {
				items: (0..draw(5)).map(|_| draw(90) as V).collect(),
				nth: pick(&[1, 2, 3, 0]),
				start: chance(1, 2),
			},
		}
	}

	fn build(&self, subject: &PublishSubject<V, E>, handle: &Handle) -> Dyn {
		let handle = handle.clone();
		match self.clone() {
			Src::Hot => Dyn::new(subject.clone()),
			Src::Cold(vs, end) => Dyn::make(move || {
				let vs = vs.clone();
				create_observable(move |destination: &mut dyn Subscriber<In = V, InError = E>| {
					for v in vs {
						if destination.is_closed() {
							return;
						}
						destination.next(v);
					}
					if destination.is_closed() {
						return;
					}
					match end {
						Some(e) => destination.error(e),
						None => destination.complete(),
					}
				})
			}),
			Src::Interval { every, start, max } => Dyn::make(move || {
				interval(
					IntervalObservableOptions {
						duration: ms(every),
						start_on_subscribe: start,
						max_emissions_per_tick: max,
					},
					handle.clone(),
				)
				.map(|n| n as V)
				.map_never()
			}),
			Src::Timer(d) => Dyn::make(move || timer(ms(d), handle.clone()).map(|_| 7).map_never()),
			Src::OnTick { items, nth, start } => Dyn::make(move || {
				items
					.clone()
					.into_observable_on_every_nth_tick(
						OnTickObservableOptions { start_on_subscribe: start, emit_at_every_nth_tick: nth },
						handle.clone(),
					)
					.map_never()
			}),
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
	Push(V),
	Complete,
	Error(E),
	Unsubscribe,
}

// ───────────────────────── the model

#[derive(Default)]
struct Link {
	busy: bool,
	/// Signals that were already accepted
	observed: bool,
	observed_unsubscribe: bool,
	flag: bool,
	queue: VecDeque<Sig>,
}

#[derive(Default)]
struct Hot {
	completed: bool,
	error: Option<E>,
	unsubscribed: bool,
	flag: bool,
	present: bool,
	busy: bool,
	queue: VecDeque<HotSig>,
}

#[derive(Clone)]
enum HotSig {
	Sig(Sig),
	ById,
}

#[derive(Default)]
struct Node {
	link: Link,
	// delay, observe_on
	pending: u64,
	up_completed: bool,
	up_unsubscribed: bool,
	// debounce
	generation: u64,
	waiting: u64,
	// throttle
	deadline: Option<u64>,
	last_tick: u64,
	last_value: Option<V>,
	up: Option<Sig>,
	// take
	count: usize,
	taken: bool,
	// fallback
	observed: Option<V>,
}

#[derive(Clone, Debug)]
enum Do {
	Delayed(V),
	Decrement,
	Debounced(u64, V),
	Throttle,
	Fallback(usize),
	Interval(usize),
	Timer,
	OnTick(usize, VecDeque<V>),
	Subscribe,
	/// The harness pushing into the subject from within the executor
	Act(Act),
}

struct Work {
	id: u32,
	node: usize,
	at: u64,
	ready: Option<u64>,
	what: Do,
}

enum Queued {
	Work(Work),
	Cancel(usize),
}

struct Model {
	src: Src,
	stages: Vec<Stage>,
	nodes: Vec<Node>,
	hot: Hot,
	hooks: BTreeMap<usize, Act>,
	now: u64,
	scheduler_now: u64,
	next_id: u32,
	queue: Vec<Queued>,
	works: Vec<Work>,
	out: Vec<Sig>,
	values: usize,
	closed: bool,
	/// The source is subscribed to
	sourced: bool,
	subscription_taken: bool,
	subscribed: bool,
	fallbacks: u64,
	/// Executed once closed
	on_close: Vec<OnClose>,
}

#[derive(Clone, Copy)]
enum OnClose {
	Cancel(usize),
	/// What the subscribe_on at this node subscribed to
	Upstream(usize),
}

impl Model {
	fn new(src: Src, stages: Vec<Stage>, hooks: BTreeMap<usize, Act>) -> Model {
		Model {
			nodes: (0..=stages.len()).map(|_| Node::default()).collect(),
			src,
			stages,
			hot: Hot::default(),
			hooks,
			now: 0,
			scheduler_now: 0,
			next_id: 0,
			queue: vec![],
			works: vec![],
			out: vec![],
			values: 0,
			closed: false,
			sourced: false,
			subscription_taken: false,
			subscribed: false,
			fallbacks: 0,
			on_close: vec![],
		}
	}

	fn stage(&self, node: usize) -> Stage {
		self.stages[node - 1]
	}

	fn schedule(&mut self, node: usize, delay: Option<u64>, what: Do) {
		self.next_id += 1;
		let at = self.scheduler_now;
		let work = Work { id: self.next_id, node, at, ready: delay.map(|d| at + d), what };
		self.queue.push(Queued::Work(work));
	}

	fn cancel(&mut self, node: usize) {
		self.queue.push(Queued::Cancel(node));
	}

	fn on_close(&mut self, what: OnClose) {
		if self.closed {
			self.run_on_close(what);
		} else {
			self.on_close.push(what);
		}
	}

	fn run_on_close(&mut self, what: OnClose) {
		match what {
			OnClose::Cancel(node) => self.cancel(node),
			OnClose::Upstream(node) => self.unsubscribe_below(node),
		}
	}

	// ── observer

	fn observe(&mut self, sig: Sig) {
		if self.closed {
			return;
		}
		if sig == Sig::Unsub {
			self.close();
			return;
		}
		let terminal = sig.is_terminal();
		self.out.push(sig);
		if terminal {
			self.close();
			return;
		}
		self.values += 1;
		if let Some(act) = self.hooks.get(&self.values).copied() {
			self.act(act);
		}
	}

	fn close(&mut self) {
		self.closed = true;
		for what in std::mem::take(&mut self.on_close) {
			self.run_on_close(what);
		}
	}

	fn act(&mut self, act: Act) {
		match act {
			Act::Push(v) => self.hot_push(Sig::Next(v)),
			Act::Complete => self.hot_push(Sig::Complete),
			Act::Error(e) => self.hot_push(Sig::Error(e)),
			Act::Unsubscribe => {
				if self.subscribed {
					self.unsubscribe_below(self.stages.len() + 1);
				}
			}
		}
	}

	// ── subject

	fn hot_closed(&self) -> bool {
		self.hot.flag || self.hot.completed || self.hot.error.is_some() || self.hot.unsubscribed
	}

	fn hot_push(&mut self, sig: Sig) {
		match &sig {
			Sig::Next(_) => {
				if self.hot_closed() {
					return;
				}
			}
			Sig::Unsub => {
				if std::mem::replace(&mut self.hot.unsubscribed, true) {
					return;
				}
			}
			end => {
				if self.hot_closed() {
					return;
				}
				match end {
					Sig::Error(e) => self.hot.error = Some(*e),
					_ => self.hot.completed = true,
				}
			}
		}
		self.hot.queue.push_back(HotSig::Sig(sig));
		self.hot_apply();
	}

	fn hot_apply(&mut self) {
		if self.hot.busy {
			return;
		}
		self.hot.busy = true;
		while let Some(sig) = self.hot.queue.pop_front() {
			match sig {
				HotSig::ById => {
					if std::mem::take(&mut self.hot.present) && !self.node_closed(1) {
						self.send(1, Sig::Unsub);
					}
				}
				HotSig::Sig(sig) => {
					if sig == Sig::Unsub || !self.hot.flag {
						if self.hot.present && !self.node_closed(1) {
							self.send(1, sig.clone());
						}
						if sig == Sig::Unsub {
							self.hot.present = false;
						}
					}
					if !matches!(sig, Sig::Next(_)) {
						self.hot.flag = true;
					}
				}
			}
		}
		self.hot.busy = false;
	}

	// ── links

	fn link_closed_deferred(&self, node: usize) -> bool {
		let link = &self.nodes[node].link;
		link.flag || link.observed || link.observed_unsubscribe
	}

	fn link_closed(&self, node: usize) -> bool {
		self.link_closed_deferred(node) || !self.nodes[node].link.busy && self.node_closed(node + 1)
	}

	fn link_send(&mut self, node: usize, sig: Sig) {
		if sig == Sig::Unsub {
			if !std::mem::replace(&mut self.nodes[node].link.observed_unsubscribe, true) {
				self.nodes[node].link.queue.push_back(sig);
			}
		} else if !self.link_closed(node) {
			self.nodes[node].link.observed |= sig.is_terminal();
			self.nodes[node].link.queue.push_back(sig);
		}
		self.link_apply(node);
	}

	fn link_apply(&mut self, node: usize) {
		if self.nodes[node].link.busy {
			return;
		}
		self.nodes[node].link.busy = true;
		while let Some(sig) = self.nodes[node].link.queue.pop_front() {
			let closing = !matches!(sig, Sig::Next(_));
			if !self.node_closed(node + 1) && (sig == Sig::Unsub || !self.nodes[node].link.flag) {
				self.send(node + 1, sig);
			}
			self.nodes[node].link.flag |= closing;
		}
		self.nodes[node].link.busy = false;
	}

	// ── subscribing

	/// Subscribes to everything above this node
	fn subscribe_below(&mut self, node: usize) {
		for at in (1..node).rev() {
			match self.stage(at) {
				Stage::Take(n) => {
					self.nodes[at].count = n;
					if n == 0 && !self.node_closed(at + 1) {
						self.send(at + 1, Sig::Complete);
					}
					self.nodes[at].taken = self.node_closed(at + 1);
				}
				Stage::Delay(_) | Stage::ObserveOn | Stage::Debounce(_) | Stage::Throttle(..) => {
					self.on_close(OnClose::Cancel(at));
				}
				Stage::Fallback => self.schedule(at, None, Do::Fallback(0)),
				Stage::SubscribeOn(d) => {
					self.schedule(at, Some(d), Do::Subscribe);
					self.on_close(OnClose::Cancel(at));
					return;
				}
				Stage::Map => {}
			}
		}
		self.sourced = true;
		match self.src.clone() {
			Src::Hot => {
				if !self.hot_closed() {
					self.hot.present = true;
				} else {
					self.subscription_taken = true;
					if !self.node_closed(1) {
						if let Some(e) = self.hot.error {
							self.send(1, Sig::Error(e));
						} else if self.hot.completed {
							self.send(1, Sig::Complete);
						}
						if !self.node_closed(1) {
							self.send(1, Sig::Unsub);
						}
					}
				}
			}
			Src::Cold(vs, end) => {
				for v in vs {
					if self.node_closed(1) {
						break;
					}
					self.send(1, Sig::Next(v));
				}
				if !self.node_closed(1) {
					self.send(1, end.map_or(Sig::Complete, Sig::Error));
				}
			}
			Src::Interval { start, .. } => {
				if start {
					self.link_send(0, Sig::Next(0));
				}
				self.schedule(0, None, Do::Interval(start as usize));
				self.on_close(OnClose::Cancel(0));
			}
			Src::Timer(d) => {
				self.schedule(0, Some(d), Do::Timer);
				self.on_close(OnClose::Cancel(0));
			}
			Src::OnTick { items, nth, start } => {
				let mut items: VecDeque<V> = items.into();
				if nth == 0 {
					for v in items {
						if self.node_closed(1) {
							break;
						}
						self.send(1, Sig::Next(v));
					}
					if !self.node_closed(1) {
						self.send(1, Sig::Complete);
					}
					return;
				}
				if start && let Some(v) = items.pop_front() {
					self.link_send(0, Sig::Next(v));
				}
				if items.is_empty() {
					self.link_send(0, Sig::Complete);
				} else {
					self.schedule(0, None, Do::OnTick(0, items));
				}
			}
		}
	}

	/// Unsubscribes what this node subscribed to
	fn unsubscribe_below(&mut self, node: usize) {
		if let Some(at) = (1..node).rev().find(|at| matches!(self.stage(*at), Stage::SubscribeOn(_))) {
			self.link_send(at, Sig::Unsub);
			return;
		}
		match self.src {
			Src::Hot => {
				if !std::mem::replace(&mut self.subscription_taken, true) && (self.hot.busy || !self.node_closed(1)) {
					self.hot.queue.push_back(HotSig::ById);
					self.hot_apply();
				}
			}
			Src::Cold(..) => {
				if !self.node_closed(1) {
					self.send(1, Sig::Unsub);
				}
			}
			_ => {
				self.cancel(0);
				if !self.link_closed(0) {
					self.link_send(0, Sig::Unsub);
				}
			}
		}
	}

	fn subscription_closed(&self) -> Option<bool> {
		if let Some(at) = (1..=self.stages.len()).rev().find(|at| matches!(self.stage(*at), Stage::SubscribeOn(_))) {
			return Some(self.link_closed(at));
		}
		match self.src {
			Src::Hot => Some(self.subscription_taken || self.node_closed(1)),
			Src::Cold(..) => None,
			_ => Some(self.link_closed(0)),
		}
	}

	// ── stages

	fn node_closed(&self, node: usize) -> bool {
		if node > self.stages.len() {
			return self.closed;
		}
		let state = &self.nodes[node];
		match self.stage(node) {
			Stage::Map => self.node_closed(node + 1),
			Stage::Take(_) => state.taken || self.node_closed(node + 1),
			Stage::Delay(_) | Stage::Debounce(_) => self.link_closed(node) || state.up_unsubscribed,
			Stage::ObserveOn | Stage::SubscribeOn(_) | Stage::Fallback => self.link_closed(node),
			Stage::Throttle(..) => self.link_closed(node) || state.up.is_some(),
		}
	}

	fn send(&mut self, node: usize, sig: Sig) {
		if node > self.stages.len() {
			self.observe(sig);
			return;
		}
		match (self.stage(node), sig) {
			(Stage::Map, Sig::Next(v)) => self.send(node + 1, Sig::Next(v + 1000)),
			(Stage::Map, sig) => self.send(node + 1, sig),

			(Stage::Take(_), Sig::Next(v)) => {
				if self.nodes[node].count > 0 {
					self.nodes[node].count -= 1;
					self.send(node + 1, Sig::Next(v));
					if self.nodes[node].count == 0 && !self.node_closed(node) {
						self.send(node, Sig::Complete);
					}
				}
			}
			(Stage::Take(_), sig) => {
				if sig != Sig::Unsub || !self.node_closed(node) {
					self.send(node + 1, sig);
				}
				self.nodes[node].taken = true;
			}

			(Stage::Delay(d), Sig::Next(v)) => {
				self.nodes[node].pending += 1;
				self.schedule(node, Some(d), Do::Delayed(v));
			}
			(Stage::ObserveOn, Sig::Next(v)) => {
				self.nodes[node].pending += 1;
				self.schedule(node, Some(0), Do::Delayed(v));
			}
			(Stage::Delay(_), Sig::Error(e)) => {
				self.nodes[node].up_unsubscribed = true;
				self.nodes[node].pending = 0;
				self.cancel(node);
				self.link_send(node, Sig::Error(e));
			}
			(Stage::ObserveOn, Sig::Error(e)) => {
				self.nodes[node].up_unsubscribed = true;
				self.link_send(node, Sig::Error(e));
			}
			(Stage::Delay(_) | Stage::ObserveOn, Sig::Complete) => {
				self.nodes[node].up_completed = true;
				self.nodes[node].up_unsubscribed = true;
				if self.nodes[node].pending == 0 {
					self.link_send(node, Sig::Complete);
				} else {
					count("probe:completion_postponed");
					if self.stage(node) == Stage::ObserveOn {
						self.schedule(node, Some(0), Do::Decrement);
					}
				}
			}
			(Stage::Delay(_) | Stage::ObserveOn, Sig::Unsub) => {
				if !self.node_closed(node) {
					self.nodes[node].up_unsubscribed = true;
					if self.nodes[node].pending == 0 {
						self.link_send(node, Sig::Unsub);
					} else {
						count("probe:unsubscribe_postponed");
					}
				}
			}

			(Stage::Debounce(d), Sig::Next(v)) => {
				self.cancel(node);
				let state = &mut self.nodes[node];
				if state.waiting != 0 {
					count("probe:superseded");
				}
				state.generation += 1;
				state.waiting = state.generation;
				let generation = state.generation;
				self.schedule(node, Some(d), Do::Debounced(generation, v));
			}
			(Stage::Debounce(_), Sig::Error(e)) => {
				self.nodes[node].up_unsubscribed = true;
				self.nodes[node].waiting = 0;
				self.cancel(node);
				self.link_send(node, Sig::Error(e));
			}
			(Stage::Debounce(_), Sig::Complete) => {
				self.nodes[node].up_completed = true;
				self.nodes[node].up_unsubscribed = true;
				if self.nodes[node].waiting == 0 {
					self.link_send(node, Sig::Complete);
				} else {
					count("probe:completion_postponed");
				}
			}
			(Stage::Debounce(_), Sig::Unsub) => {
				if !self.node_closed(node) {
					self.nodes[node].up_unsubscribed = true;
					if self.nodes[node].waiting == 0 {
						self.link_send(node, Sig::Unsub);
					} else {
						count("probe:unsubscribe_postponed");
					}
				}
			}

			(Stage::Throttle(d, output), Sig::Next(v)) => {
				let state = &mut self.nodes[node];
				let idle = state.deadline.is_none();
				if idle || state.deadline.is_some_and(|deadline| deadline <= state.last_tick) {
					state.deadline = Some(state.last_tick + d);
					if output.emits_leading() && (idle || !output.emits_trailing()) {
						self.send_leading(node, v);
					} else {
						self.nodes[node].last_value = Some(v);
					}
				} else if output.emits_trailing() {
					state.last_value = Some(v);
				} else {
					count("probe:throttled");
				}
				if idle {
					self.schedule(node, None, Do::Throttle);
				}
			}
			(Stage::Throttle(..), Sig::Error(e)) => {
				let state = &mut self.nodes[node];
				state.up = Some(Sig::Error(e));
				state.deadline = None;
				state.last_value = None;
				self.cancel(node);
				self.link_send(node, Sig::Error(e));
			}
			(Stage::Throttle(..), sig) => {
				if sig == Sig::Unsub && self.node_closed(node) {
					return;
				}
				let state = &mut self.nodes[node];
				state.up = Some(sig.clone());
				if state.deadline.is_none() || state.last_value.is_none() {
					state.deadline = None;
					self.cancel(node);
					self.link_send(node, sig);
				} else {
					count("probe:completion_postponed");
				}
			}

			(Stage::Fallback, Sig::Next(v)) => self.nodes[node].observed = Some(v),
			(Stage::Fallback, sig) => {
				if sig != Sig::Unsub {
					self.link_send(node, sig);
				}
				self.cancel(node);
				self.link_send(node, Sig::Unsub);
			}

			(Stage::SubscribeOn(_), sig) => self.link_send(node, sig),
		}
	}

	fn send_leading(&mut self, node: usize, v: V) {
		self.link_send(node, Sig::Next(v));
	}

	// ── executor

	fn run(&mut self, node: usize, at: &mut u64, what: &mut Do) -> bool {
		match what {
			Do::Act(act) => {
				self.act(*act);
				true
			}
			Do::Delayed(v) => {
				if !self.link_closed(node) {
					self.link_send(node, Sig::Next(*v));
				}
				let before = self.nodes[node].pending;
				self.nodes[node].pending = before.wrapping_sub(1);
				if before == 1 && !self.link_closed(node) {
					if self.nodes[node].up_completed {
						self.link_send(node, Sig::Complete);
					} else if self.nodes[node].up_unsubscribed {
						self.link_send(node, Sig::Unsub);
					}
				}
				true
			}
			Do::Decrement => {
				self.nodes[node].pending = self.nodes[node].pending.wrapping_sub(1);
				true
			}
			Do::Debounced(generation, v) => {
				if self.nodes[node].waiting != *generation {
					return true;
				}
				self.nodes[node].waiting = 0;
				if !self.link_closed(node) {
					self.link_send(node, Sig::Next(*v));
				}
				if self.nodes[node].waiting == 0 && !self.link_closed(node) {
					if self.nodes[node].up_completed {
						self.link_send(node, Sig::Complete);
					} else if self.nodes[node].up_unsubscribed {
						self.link_send(node, Sig::Unsub);
					}
				}
				true
			}
			Do::Throttle => {
				let Stage::Throttle(_, output) = self.stage(node) else { unreachable!() };
				let now = self.now;
				let state = &mut self.nodes[node];
				state.last_tick = now;
				let Some(deadline) = state.deadline else {
					count("probe:window_already_over");
					return true;
				};
				if now < deadline {
					return false;
				}
				if now > deadline && state.last_value.is_some() {
					count("probe:window_overshot");
				}
				let value = state.last_value.take().filter(|_| output.emits_trailing());
				if value.is_none() {
					state.deadline = None;
				}
				let up = state.up.clone();
				if let Some(v) = value {
					self.link_send(node, Sig::Next(v));
					if self.link_closed(node) {
						return true;
					}
				}
				if let Some(end) = up {
					self.link_send(node, end);
					return true;
				}
				value.is_none()
			}
			Do::Fallback(index) => {
				if self.link_closed(node) {
					return true;
				}
				let v = self.nodes[node].observed.take().unwrap_or_else(|| {
					self.fallbacks += 1;
					-(*index as V) - 1
				});
				*index += 1;
				self.link_send(node, Sig::Next(v));
				false
			}
			Do::Interval(n) => {
				let Src::Interval { every, max, .. } = self.src else { unreachable!() };
				let mut executed = 0;
				while *at + every <= self.now {
					if executed < max.max(1) {
						if self.link_closed(0) {
							return true;
						}
						self.link_send(0, Sig::Next(*n as V));
						*n += 1;
					} else {
						count("probe:interval_skipped");
					}
					*at += every;
					executed += 1;
				}
				false
			}
			Do::Timer => {
				self.link_send(0, Sig::Next(7));
				if !self.link_closed(0) {
					self.link_send(0, Sig::Complete);
				}
				true
			}
			Do::OnTick(ticks, items) => {
				let Src::OnTick { nth, .. } = self.src else { unreachable!() };
				*ticks += 1;
				if self.link_closed(0) {
					return true;
				}
				if *ticks % nth != 0 {
					return false;
				}
				let v = items.pop_front().unwrap();
				self.link_send(0, Sig::Next(v));
				if items.is_empty() {
					self.link_send(0, Sig::Complete);
				}
				items.is_empty()
			}
			Do::Subscribe => {
				if self.link_closed(node) {
					return true;
				}
				self.subscribe_below(node);
				if self.link_closed(node) {
					self.unsubscribe_below(node);
				} else {
					self.on_close(OnClose::Upstream(node));
				}
				true
			}
		}
	}

	fn tick_to(&mut self, tick: u64) {
		self.now = tick;
		let mut ticked: Vec<u32> = Vec::new();
		loop {
			let had_actions = !self.queue.is_empty();
			self.scheduler_now = tick;
			for queued in std::mem::take(&mut self.queue) {
				match queued {
					Queued::Work(work) => self.works.push(work),
					Queued::Cancel(node) => self.works.retain(|w| w.node != node),
				}
			}
			let mut any = false;
			for mut work in std::mem::take(&mut self.works) {
				if ticked.contains(&work.id) {
					self.works.push(work);
					continue;
				}
				any = true;
				ticked.push(work.id);
				let done = work.ready.is_none_or(|ready| ready <= tick)
					&& self.run(work.node, &mut work.at, &mut work.what);
				if !done {
					self.works.push(work);
				}
			}
			if !any && !had_actions {
				return;
			}
		}
	}
}

// ───────────────────────── sequential world

fn act(act: Act, subject: &PublishSubject<V, E>, slots: &Slots) {
	let mut subject = subject.clone();
	match act {
		Act::Push(v) => subject.next(v),
		Act::Complete => subject.complete(),
		Act::Error(e) => subject.error(e),
		Act::Unsubscribe => {
			if let Some(mut subscription) = slots.take(0) {
				subscription.unsubscribe();
				slots.put(0, subscription);
			}
		}
	}
}

struct Focus {
	sources: [u32; 5],
	stages: [u32; 8],
	/// At least one of these has to be there
	stage: [u32; 8],
	/// How far apart throttled values are is checked as well
	windows: bool,
}

fn chain(focus: &Focus) {
	let src = Src::draw(&focus.sources);
	let mut stages: Vec<Stage> = (0..draw(3)).map(|_| Stage::draw(&focus.stages)).collect();
	if focus.stage.iter().any(|w| *w > 0) {
		stages.insert(draw(stages.len() as u32 + 1) as usize, Stage::draw(&focus.stage));
	}
	let mut hooks = BTreeMap::new();
	if chance(1, 3) {
		for _ in 0..draw_range(1, 2) {
			let action = match weighted(&[4, 1, 1, 3]) {
				0 => Act::Push(draw(90) as V),
				1 => Act::Complete,
				2 => Act::Error(draw(9) as E),
				_ => Act::Unsubscribe,
			};
			hooks.insert(draw_range(1, 4) as usize, action);
		}
	}
	ev!("{src:?} -> {stages:?} hooks {hooks:?}");

	let mut executor = MockExecutor::default();
	let handle = executor.get_scheduler_handle();
	let subject = PublishSubject::<V, E>::default();
	let slots = Slots::default();
	let (up, down, called) = (Tally::default(), Tally::default(), Tally::default());

	let mut pipeline = src.build(&subject, &handle);
	{
		let (source, up) = (pipeline, up.clone());
		pipeline = Dyn::make(move || source.clone().finalize(up.on()));
	}
	for stage in &stages {
		pipeline = stage.build(pipeline, &handle, &called);
	}
	{
		let (source, down) = (pipeline, down.clone());
		pipeline = Dyn::make(move || source.clone().finalize(down.on()));
	}
	let hook: Option<Hook> = (!hooks.is_empty()).then(|| {
		let (hooks, subject, slots) = (hooks.clone(), subject.clone(), slots.clone());
		let values = AtomicUsize::new(0);
		Arc::new(move |sig: &Sig, _: usize| {
			if matches!(sig, Sig::Next(_)) {
				let nth = values.fetch_add(1, Ordering::Relaxed) + 1;
				if let Some(action) = hooks.get(&nth) {
					count("fault:reentrant");
					ev!("hook {action:?}");
					act(*action, &subject, &slots);
				}
			}
		}) as Hook
	});
	let (observer, seen) = Plain::new(0, hook);
	let mut model = Model::new(src.clone(), stages.clone(), hooks);
	let mut observer = Some(observer);
	let mut emitted: Vec<(u64, V)> = vec![];
	let mut deadline = None;
	let steps = draw_range(5, 30);
	let mut n = 0;
	let throttle_only = match stages[..] {
		[Stage::Throttle(d, ThrottleOutputBehavior::LeadingOnly)] if focus.windows => Some(d),
		_ => None,
	};
	loop {
		let last = n >= steps;
		n += 1;
		if observer.is_some() && (n > 2 || chance(3, 4)) {
			let observer = observer.take().unwrap();
			ev!("subscribe");
			let Some(subscription) = step("subscribe", || ErasedSubscription::new(pipeline.subscribe(observer))) else {
				return;
			};
			slots.put(0, subscription);
			model.subscribe_below(stages.len() + 1);
			model.subscribed = true;
		} else if last {
			// Whatever is left has to be over soon
			ev!("the end");
			if chance(1, 2) {
				model.hot_push(Sig::Complete);
				step("complete", || act(Act::Complete, &subject, &slots));
			}
			model.act(Act::Unsubscribe);
			step("unsubscribe", || act(Act::Unsubscribe, &subject, &slots));
			let target = model.now + 200;
			sim_time(200);
			model.tick_to(target);
			step("pass", || executor.tick_to(Tick::new(ms(target))));
			model.tick_to(target + 200);
			step("pass", || executor.tick_to(Tick::new(ms(target + 200))));
		} else {
			match weighted(&[10, 14, 1, 1, 1, 1, 5]) {
				6 => {
					let action = match weighted(&[8, 1, 1, 1]) {
						0 => Act::Push(draw(90) as V),
						1 => Act::Complete,
						2 => Act::Error(draw(9) as E),
						_ => Act::Unsubscribe,
					};
					if src != Src::Hot && action != Act::Unsubscribe {
						continue;
					}
					let delay = pick(&[0, 5, 10, 10, 20, 30]);
					ev!("in {delay}ms {action:?}");
					count("fault:acts_within_the_executor");
					model.schedule(usize::MAX, Some(delay), Do::Act(action));
					let (subject, slots) = (subject.clone(), slots.clone());
					let mut scheduler = handle.lock();
					let id = scheduler.generate_cancellation_id();
					scheduler.schedule_delayed_work(
						move |_, _| {
							ev!("{action:?}");
							act(action, &subject, &slots);
						},
						ms(delay),
						id,
					);
				}
				0 if src != Src::Hot => continue,
				0 => {
					let v = draw(90) as V;
					ev!("push {v}");
					model.hot_push(Sig::Next(v));
					step("push", || subject.clone().next(v));
				}
				1 => {
					let delta = pick(&[10, 0, 5, 15, 16, 25, 100]);
					match delta {
						0 => count("fault:zero_tick"),
						100 => count("fault:lag_spike"),
						_ => {}
					}
					let target = model.now + delta;
					ev!("pass at {target}ms");
					sim_time(delta);
					let works_before = model.works.len();
					model.tick_to(target);
					if works_before > 0 && model.works.is_empty() {
						count("probe:executor_drained");
					}
					step("pass", || executor.tick_to(Tick::new(ms(target))));
				}
				2 => {
					ev!("complete");
					model.hot_push(Sig::Complete);
					step("complete", || act(Act::Complete, &subject, &slots));
				}
				3 => {
					let e = draw(9) as E;
					ev!("error {e}");
					model.hot_push(Sig::Error(e));
					step("error", || act(Act::Error(e), &subject, &slots));
				}
				4 => {
					if chance(1, 2) {
						ev!("unsubscribe the source");
						model.hot_push(Sig::Unsub);
						step("unsubscribe source", || subject.clone().unsubscribe());
					}
				}
				_ => {
					if chance(1, 2) {
						count("fault:unsubscribe");
						ev!("unsubscribe");
						model.act(Act::Unsubscribe);
						if chance(1, 2) {
							step("unsubscribe", || act(Act::Unsubscribe, &subject, &slots));
						} else if let Some(subscription) = slots.take(0) {
							step("drop", || drop(subscription));
						}
					}
				}
			}
		}
		if violated() {
			return;
		}
		// ── compare
		let log = seen.log();
		seen.check_grammar("a timed pipeline");
		if log != model.out {
			let same = log.iter().zip(&model.out).take_while(|(a, b)| a == b).count();
			violation(
				if same == log.len() {
					"signals-missing"
				} else if same == model.out.len() {
					"signals-unexpected"
				} else {
					"signals-different"
				},
				format!("at {}ms observed {log:?} instead of {:?}", model.now, model.out),
			);
			return;
		}
		check!(
			called.get() == model.fallbacks,
			"fallback-calls",
			"the fallback was called {} times instead of {}",
			called.get(),
			model.fallbacks
		);
		let closed = model.closed && model.subscribed;
		check!(down.get() == closed as u64, "teardown", "closed: {closed}, but it was released {} times", down.get());
		let up_closed = closed && model.sourced;
		check!(up.get() == up_closed as u64, "upstream-teardown", "closed: {up_closed}, but it was released {} times", up.get());
		if let Some(subscription) = slots.take(0) {
			let says = subscription.is_closed();
			slots.put(0, subscription);
			if let Some(is) = model.subscription_closed() {
				check!(says == is, "is-closed", "the subscription says closed: {says} instead of {is}");
			}
		}
		let works = model.works.len();
		if model.queue.is_empty() {
			check!(
				executor.is_empty() == (works == 0),
				"executor-emptiness",
				"the executor says is_empty() = {}, but {works} works are pending",
				executor.is_empty()
			);
		}
		if let Some(window) = throttle_only {
			for v in seen.values()[emitted.len()..].iter() {
				let previous: Option<u64> = emitted.last().map(|e: &(u64, V)| e.0);
				emitted.push((model.now, *v));
				if let Some(previous) = previous
					&& model.now < previous + window
				{
					deadline = Some(format!(
						"{v} was emitted at {}ms, only {}ms after the previous one, in spite of the {window}ms window",
						model.now,
						model.now - previous
					));
				}
			}
		}
		if last {
			break;
		}
	}
	if model.closed {
		check!(executor.is_empty(), "work-left-behind", "everything is closed, but there is still work scheduled: {}", model.works.len());
	}
	if let Some(deadline) = deadline {
		violation("throttle-window-cut", deadline);
	}
	if model.out.len() > 1 {
		count("probe:signals");
	}
}

fn delays() {
	chain(&Focus {
		sources: [8, 2, 0, 0, 0],
		stages: [2, 3, 2, 2, 1, 0, 0, 0],
		stage: [0, 0, 5, 3, 3, 0, 0, 0],
		windows: false,
	});
}

fn rates() {
	chain(&Focus {
		sources: [9, 1, 0, 0, 0],
		stages: [2, 3, 0, 0, 0, 2, 2, 0],
		stage: [0, 0, 0, 0, 0, 1, 1, 0],
		windows: false,
	});
}

/// Nothing but the window of a throttle
fn windows() {
	chain(&Focus {
		sources: [1, 0, 0, 0, 0],
		stages: [1, 0, 0, 0, 0, 0, 0, 0],
		stage: [0, 0, 0, 0, 0, 0, 1, 0],
		windows: true,
	});
}

fn sources() {
	chain(&Focus { sources: [0, 0, 4, 2, 3], stages: [2, 3, 0, 0, 0, 0, 0, 0], stage: [0; 8], windows: false });
}

fn silence() {
	chain(&Focus {
		sources: [6, 1, 0, 0, 0],
		stages: [2, 3, 0, 0, 0, 0, 0, 1],
		stage: [0, 0, 0, 0, 0, 0, 0, 1],
		windows: false,
	});
}

fn mixed() {
	chain(&Focus { sources: [6, 1, 3, 1, 2], stages: [1, 2, 2, 2, 2, 2, 2, 2], stage: [0, 0, 1, 1, 1, 1, 1, 1], windows: false });
}

pub fn register(checks: &mut Vec<Check>) {
	let rule = "after every step the signals observed, the releases, whether the subscription is closed and whether the executor is empty \
		are compared with a reference model of the executor and the operators";
	let mut add = |property: &'static str, worlds: Vec<World>, probes: &'static [&'static str]| {
		checks.push(Check { property, worlds, rule, real: REAL_CORE, stubs: STUB_CORE, probes });
	};
	add(
		"R11",
		vec![World { name: "delays", run: delays, quick: 60_000, thorough: 3_000_000 }],
		&[
			"probe:completion_postponed",
			"probe:unsubscribe_postponed",
			"probe:executor_drained",
			"fault:reentrant",
			"fault:acts_within_the_executor",
			"fault:lag_spike",
		],
	);
	add(
		"R12",
		vec![
			World { name: "rates", run: rates, quick: 60_000, thorough: 3_000_000 },
			World { name: "windows", run: windows, quick: 2_000, thorough: 100_000 },
		],
		&[
			"probe:superseded",
			"probe:throttled",
			"probe:window_overshot",
			"probe:executor_drained",
			"fault:reentrant",
			"fault:acts_within_the_executor",
			"fault:lag_spike",
		],
	);
	add(
		"R13",
		vec![World { name: "timed sources", run: sources, quick: 60_000, thorough: 3_000_000 }],
		&[
			"probe:interval_skipped",
			"probe:executor_drained",
			"fault:reentrant",
			"fault:acts_within_the_executor",
			"fault:lag_spike",
		],
	);
	add(
		"R14",
		vec![World { name: "silence", run: silence, quick: 60_000, thorough: 3_000_000 }, crate::adsr::world()],
		&["probe:executor_drained", "fault:reentrant", "fault:acts_within_the_executor", "fault:lag_spike"],
	);
	add(
		"R25",
		vec![World { name: "timed pipelines", run: mixed, quick: 60_000, thorough: 5_000_000 }],
		&[
			"probe:completion_postponed",
			"probe:superseded",
			"probe:window_overshot",
			"probe:interval_skipped",
			"probe:executor_drained",
			"fault:reentrant",
			"fault:acts_within_the_executor",
			"fault:lag_spike",
		],
	);
}
