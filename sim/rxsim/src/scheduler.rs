//! R04/R05: the ticking scheduler and its executor against a reference model.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use crate::common::*;

#[derive(Clone, Debug)]
enum Kind {
	Immediate,
	Delayed(u64),
	Repeated { interval: u64, start: bool, max: usize },
	Continuous,
	Invoked(usize),
}

#[derive(Clone, Debug)]
enum Op {
	Schedule(Spec),
	Cancel(usize),
	Invoke(usize),
	CancelInvoked(usize),
}

#[derive(Clone, Debug)]
struct Spec {
	id: u32,
	kind: Kind,
	slot: usize,
	/// Returns Done on this run (1 based), never if 0
	done_after: u32,
	/// What the nth run does
	nested: Vec<Vec<Op>>,
	/// The nth run (1 based) panics
	panics_on: u32,
}

const SLOTS: usize = 3;
const INVOKES: usize = 3;

struct Gen {
	next_id: u32,
	panics: bool,
	cancels: bool,
	invokes: bool,
}

impl Gen {
	fn spec(&mut self, depth: u32) -> Spec {
		self.next_id += 1;
		let id = self.next_id;
		let kind = match weighted(&[4, 5, 4, 2, if self.invokes { 3 } else { 0 }]) {
			0 => Kind::Immediate,
			1 => Kind::Delayed(pick(&[0, 1, 5, 10, 10, 13, 100])),
			2 => Kind::Repeated {
				interval: pick(&[10, 1, 3, 7, 50]),
				start: chance(1, 2),
				max: pick(&[1usize, 2, 5, 1000]),
			},
			3 => Kind::Continuous,
			_ => Kind::Invoked(draw(INVOKES as u32) as usize),
		};
		// What finishes in a pass that ends with a panic may be left behind, so
		// with panics only self limiting work finishes
		let done_after = if self.panics { 0 } else { pick(&[1, 0, 2, 3, 5]) };
		let mut nested = Vec::new();
		if depth > 0 && chance(1, 3) {
			for _ in 0..draw_range(1, 3) {
				let mut ops = Vec::new();
				for _ in 0..draw_range(0, 2) {
					ops.push(self.op(depth - 1));
				}
				nested.push(ops);
			}
		}
		let panics_on = if self.panics && !matches!(kind, Kind::Invoked(_)) && chance(1, 8) { draw_range(1, 2) } else { 0 };
		Spec { id, kind, slot: draw(SLOTS as u32) as usize, done_after, nested, panics_on }
	}

	fn op(&mut self, depth: u32) -> Op {
		match weighted(&[
			6,
			if self.cancels { 2 } else { 0 },
			if self.invokes { 3 } else { 0 },
			if self.invokes && self.cancels { 1 } else { 0 },
		]) {
			0 => Op::Schedule(self.spec(depth)),
			1 => Op::Cancel(draw(SLOTS as u32) as usize),
			2 => Op::Invoke(draw(INVOKES as u32) as usize),
			_ => Op::CancelInvoked(draw(INVOKES as u32) as usize),
		}
	}
}

// ───────────────────────── the real one

struct Ids {
	cancellation: Vec<WorkCancellationId>,
	invoke: Vec<WorkInvokeId>,
}

type Log = Arc<Mutex<Vec<(u32, u64)>>>;

fn issue(op: &Op, handle: &Handle, ids: &Arc<Ids>, log: &Log) {
	match op {
		Op::Cancel(slot) => handle.lock().cancel(ids.cancellation[*slot]),
		Op::Invoke(slot) => handle.lock().invoke(ids.invoke[*slot]),
		Op::CancelInvoked(slot) => handle.lock().cancel_invoked(ids.invoke[*slot]),
		Op::Schedule(spec) => {
			let mut runs = 0;
			let (spec_2, handle_2, ids_2, log_2) = (spec.clone(), handle.clone(), ids.clone(), log.clone());
			let mut body = move |now: Duration| -> WorkResult {
				runs += 1;
				ev!("work {} runs at {}ms", spec_2.id, now.as_millis());
				log_2.lock().unwrap().push((spec_2.id, now.as_millis() as u64));
				if let Some(ops) = spec_2.nested.get(runs as usize - 1) {
					for op in ops {
						issue(op, &handle_2, &ids_2, &log_2);
					}
				}
				if spec_2.panics_on == runs {
					injected_panic();
				}
				if spec_2.done_after != 0 && runs >= spec_2.done_after {
					WorkResult::Done
				} else {
					WorkResult::Pending
				}
			};
			let id = ids.cancellation[spec.slot];
			match spec.kind.clone() {
				Kind::Immediate => handle.lock().schedule_immediate_work(
					move |tick: Tick, _| {
						body(tick.now());
					},
					id,
				),
				Kind::Delayed(delay) => handle.lock().schedule_delayed_work(
					move |tick: Tick, _| {
						body(tick.now());
					},
					ms(delay),
					id,
				),
				Kind::Repeated { interval, start, max } => handle.lock().schedule_repeated_work(
					move |tick: Tick, _| body(tick.now()),
					ms(interval),
					start,
					max,
					id,
				),
				Kind::Continuous => {
					handle.lock().schedule_continuous_work(move |tick: Tick, _| body(tick.now()), id)
				}
				Kind::Invoked(slot) => {
					use rx_core_common::InvokedTaskFactory;
					let work = <Sched as Scheduler>::InvokedWorkFactory::new(
						move |tick: Tick, _: &mut MockContext| body(tick.now()),
					);
					handle.lock().schedule_invoked_work(work, ids.invoke[slot])
				}
			}
		}
	}
}

// ───────────────────────── the model

struct ModelWork {
	spec: Spec,
	scheduled_on: u64,
	consumed: u64,
	start: bool,
	runs: u32,
}

enum Queued {
	Work(ModelWork),
	Op(Op),
}

#[derive(Default)]
struct Model {
	now: u64,
	scheduler_now: u64,
	queue: Vec<Queued>,
	active: Vec<ModelWork>,
	invokable: BTreeMap<usize, ModelWork>,
	invoked: Vec<usize>,
	log: Vec<(u32, u64)>,
	panicked: bool,
}

impl Model {
	fn issue(&mut self, op: &Op) {
		match op {
			Op::Schedule(spec) => self.queue.push(Queued::Work(ModelWork {
				spec: spec.clone(),
				scheduled_on: self.scheduler_now,
				consumed: self.scheduler_now,
				start: matches!(spec.kind, Kind::Repeated { start: true, .. }),
				runs: 0,
			})),
			other => self.queue.push(Queued::Op(other.clone())),
		}
	}

	/// One run of the body. Returns whether it's done.
	fn body(&mut self, work: &mut ModelWork, tick: u64) -> bool {
		work.runs += 1;
		self.log.push((work.spec.id, tick));
		if let Some(ops) = work.spec.nested.get(work.runs as usize - 1).cloned() {
			for op in &ops {
				self.issue(op);
			}
		}
		if work.spec.panics_on == work.runs {
			self.panicked = true;
			return false;
		}
		work.spec.done_after != 0 && work.runs >= work.spec.done_after
	}

	fn tick_work(&mut self, work: &mut ModelWork, tick: u64) -> bool {
		match work.spec.kind {
			Kind::Immediate => {
				if work.runs == 0 {
					self.body(work, tick);
				}
				true
			}
			Kind::Delayed(delay) => {
				let due = work.scheduled_on + delay <= self.now;
				if due && work.runs == 0 {
					self.body(work, tick);
				}
				due
			}
			Kind::Repeated { interval, max, .. } => {
				let mut executed = 0;
				let mut done = false;
				if work.start {
					// Started right away, this does not consume the interval
					done = self.body(work, tick);
					if self.panicked {
						return false;
					}
					work.start = false;
					executed += 1;
				}
				while !done && work.consumed + interval <= self.now {
					if executed < max {
						done = self.body(work, tick);
						if self.panicked {
							return false;
						}
					}
					work.consumed += interval;
					executed += 1;
				}
				done
			}
			Kind::Continuous => self.body(work, tick),
			Kind::Invoked(_) => unreachable!(),
		}
	}

	fn tick_to(&mut self, tick: u64) {
		self.now = self.now.max(tick);
		self.panicked = false;
		let mut ticked: Vec<u32> = Vec::new();
		loop {
			let had_actions = !self.queue.is_empty();
			self.scheduler_now = self.scheduler_now.max(tick);
			for queued in std::mem::take(&mut self.queue) {
				match queued {
					Queued::Work(work) => match work.spec.kind {
						Kind::Invoked(slot) => {
							self.invokable.insert(slot, work);
						}
						_ => self.active.push(work),
					},
					Queued::Op(Op::Cancel(slot)) => self.active.retain(|w| w.spec.slot != slot),
					Queued::Op(Op::Invoke(slot)) => self.invoked.push(slot),
					Queued::Op(Op::CancelInvoked(slot)) => {
						self.invokable.remove(&slot);
						self.invoked.retain(|s| *s != slot);
					}
					Queued::Op(Op::Schedule(_)) => unreachable!(),
				}
			}
			let mut any = false;
			for mut work in std::mem::take(&mut self.active) {
				if self.panicked || ticked.contains(&work.spec.id) {
					self.active.push(work);
					continue;
				}
				any = true;
				ticked.push(work.spec.id);
				let done = self.tick_work(&mut work, tick);
				if !done {
					self.active.push(work);
				}
			}
			if self.panicked {
				return;
			}
			for slot in std::mem::take(&mut self.invoked) {
				if let Some(mut work) = self.invokable.remove(&slot) {
					let done = self.body(&mut work, tick);
					if !done {
						self.invokable.insert(slot, work);
					}
				}
			}
			if !any && !had_actions {
				return;
			}
		}
	}
}

fn scheduler_world(panics: bool, cancels: bool, invokes: bool) {
	let mut executor = MockExecutor::default();
	let handle = executor.get_scheduler_handle();
	let ids = Arc::new({
		let mut scheduler = handle.lock();
		Ids {
			cancellation: (0..SLOTS).map(|_| scheduler.generate_cancellation_id()).collect(),
			invoke: (0..INVOKES).map(|_| scheduler.generate_invoke_id()).collect(),
		}
	});
	let log: Log = Default::default();
	let mut model = Model::default();
	let mut generator = Gen { next_id: 0, panics, cancels, invokes };
	let mut compared = 0;
	for _ in 0..draw_range(2, 24) {
		if chance(2, 5) {
			let previous = model.now;
			let target = match weighted(&[10, 3, 3, if panics { 0 } else { 2 }]) {
				0 => previous + pick(&[10, 1, 3, 5, 17]),
				1 => {
					count("fault:zero_tick");
					previous
				}
				2 => {
					count("fault:lag_spike");
					previous + pick(&[100, 61, 250, 1000])
				}
				_ => {
					count("fault:clock_went_backwards");
					previous.saturating_sub(pick(&[1, 10, 100]))
				}
			};
			ev!("tick to {target}ms");
			sim_time(target.saturating_sub(previous));
			match guarded(|| executor.tick_to(Tick::new(ms(target)))) {
				Outcome::Panicked(message) => {
					violation(format!("panic:{}", panic_signature(&message)), format!("the tick panicked: {message}"));
					return;
				}
				Outcome::InjectedPanic => count("probe:panic_in_work"),
				Outcome::Ok(()) => {}
			}
			model.tick_to(target);
			let real = log.lock().unwrap().clone();
			if real[compared..] != model.log[compared.min(model.log.len())..] {
				violation(
					"work-executed-differently",
					format!(
						"in the tick to {target}ms work ran as {:?}, but {:?} was expected (work id, time)",
						&real[compared..],
						&model.log[compared.min(model.log.len())..]
					),
				);
				return;
			}
			if real.len() > compared {
				count("probe:work_ran");
			}
			compared = real.len();
			let empty = model.active.is_empty() && model.invokable.is_empty();
			// A panicking pass may leave already finished work behind until the next tick
			if !panics && executor.is_empty() != empty {
				violation(
					"executor-emptiness",
					format!("the executor says is_empty() = {}, but {} works are pending", executor.is_empty(), model.active.len() + model.invokable.len()),
				);
				return;
			}
			check!(
				executor.now() == ms(model.now),
				"executor-time",
				"the executor is at {:?} instead of {}ms",
				executor.now(),
				model.now
			);
		} else {
			let op = generator.op(2);
			ev!("{}", describe(&op));
			match &op {
				Op::Cancel(_) => count("fault:cancelled"),
				Op::CancelInvoked(_) => count("fault:invoke_cancelled"),
				_ => {}
			}
			issue(&op, &handle, &ids, &log);
			model.issue(&op);
		}
	}
}

fn describe(op: &Op) -> String {
	match op {
		Op::Schedule(spec) => format!(
			"schedule work {} {:?} slot {} done after {} runs{}{}",
			spec.id,
			spec.kind,
			spec.slot,
			spec.done_after,
			if spec.panics_on > 0 { format!(" panics on run {}", spec.panics_on) } else { String::new() },
			if spec.nested.iter().any(|n| !n.is_empty()) { format!(" nested {:?}", spec.nested) } else { String::new() }
		),
		other => format!("{other:?}"),
	}
}

fn timing() {
	scheduler_world(false, false, false);
}

fn timing_panics() {
	scheduler_world(true, false, false);
}

fn cancelling() {
	scheduler_world(false, true, true);
}

fn cancelling_no_invoke() {
	scheduler_world(true, true, false);
}

/// Several threads schedule and cancel while another one ticks.
fn scheduler_threads() {
	let executor = MockExecutor::default();
	let handle = executor.get_scheduler_handle();
	let executor = Arc::new(Mutex::new(executor));

	#[derive(Clone, Default)]
	struct Entry {
		delay: u64,
		/// time of the last tick that ended before it was scheduled
		ended_before: u64,
		scheduled: bool,
		cancelled_at_tick: Option<u32>,
		ran: Vec<(u32, u64)>,
	}
	#[derive(Default)]
	struct Shared {
		entries: Vec<Entry>,
		tick_index: u32,
		tick_time: u64,
		ended_tick_time: u64,
	}
	let shared: Arc<Mutex<Shared>> = Default::default();
	let mut closures: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
	let producers = draw_range(1, 3);
	for producer in 0..producers {
		let plan: Vec<(u64, bool)> =
			(0..draw_range(1, 4)).map(|_| (pick(&[0, 0, 5, 10, 20]), chance(1, 3))).collect();
		let (handle, shared) = (handle.clone(), shared.clone());
		closures.push(Box::new(move || {
			for (delay, cancel) in plan {
				let index = {
					let mut s = shared.lock().unwrap();
					let ended_before = s.ended_tick_time;
					s.entries.push(Entry { delay, ended_before, ..Default::default() });
					s.entries.len() - 1
				};
				let shared_2 = shared.clone();
				let id = handle.lock().generate_cancellation_id();
				let work = move |tick: Tick, _: &mut MockContext| {
					let mut s = shared_2.lock().unwrap();
					let at = s.tick_index;
					ev!("work {index} runs at {}", tick.now().as_millis());
					s.entries[index].ran.push((at, tick.now().as_millis() as u64));
				};
				if delay == 0 {
					handle.lock().schedule_immediate_work(work, id);
				} else {
					handle.lock().schedule_delayed_work(work, ms(delay), id);
				}
				ev!("producer {producer} scheduled work {index} delay {delay}");
				shared.lock().unwrap().entries[index].scheduled = true;
				if cancel {
					handle.lock().cancel(id);
					count("fault:cancelled");
					let mut s = shared.lock().unwrap();
					let at = s.tick_index;
					ev!("producer {producer} cancelled work {index} in tick {at}");
					s.entries[index].cancelled_at_tick = Some(at);
				}
			}
		}));
	}
	let ticks: Vec<u64> = (0..draw_range(1, 4)).map(|_| pick(&[5, 0, 10, 50])).collect();
	{
		let (executor, shared) = (executor.clone(), shared.clone());
		closures.push(Box::new(move || {
			for delta in ticks {
				let mut executor = executor.lock().unwrap();
				let next = executor.now() + ms(delta);
				{
					let mut s = shared.lock().unwrap();
					s.tick_index += 1;
					s.tick_time = next.as_millis() as u64;
					ev!("tick {} to {}", s.tick_index, s.tick_time);
				}
				sim_time(delta);
				executor.tick_to(Tick::new(next));
				shared.lock().unwrap().ended_tick_time = next.as_millis() as u64;
			}
		}));
	}
	threads(pick(&[3, 2, 6, 15]), closures);
	{
		let mut executor = executor.lock().unwrap();
		for _ in 0..3 {
			{
				let mut s = shared.lock().unwrap();
				s.tick_index += 1;
				s.tick_time += 1000;
				ev!("final tick {} to {}", s.tick_index, s.tick_time);
			}
			executor.tick(ms(1000));
		}
		check!(executor.is_empty(), "executor-emptiness", "the executor is not empty after everything is done");
	}
	for (index, e) in shared.lock().unwrap().entries.iter().enumerate() {
		check!(e.ran.len() <= 1, "ran-twice", "work {index} ran {} times", e.ran.len());
		if let Some((_, time)) = e.ran.first() {
			check!(
				*time >= e.ended_before + e.delay,
				"ran-early",
				"work {index} with a delay of {} scheduled at or after {} ran at {time}",
				e.delay,
				e.ended_before
			);
		}
		match e.cancelled_at_tick {
			None => {
				check!(e.ran.len() == 1, "never-ran", "work {index} never ran");
			}
			Some(at) => {
				if let Some((ran_at, _)) = e.ran.first() {
					check!(*ran_at <= at, "ran-after-cancel", "work {index} ran in tick {ran_at}, it was cancelled in tick {at}");
				}
			}
		}
	}
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R04",
		worlds: vec![
			World { name: "timing", run: timing, quick: 60_000, thorough: 3_000_000 },
			World { name: "timing_panics", run: timing_panics, quick: 20_000, thorough: 600_000 },
			World { name: "scheduler_threads", run: scheduler_threads, quick: 10_000, thorough: 400_000 },
		],
		rule: "distinct hashes over the sequence of operations, work executions and thread switches of a run, with more than 3 events",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["fault:zero_tick", "fault:lag_spike", "fault:clock_went_backwards", "probe:work_ran", "probe:panic_in_work"],
	});
	checks.push(Check {
		property: "R05",
		worlds: vec![
			World { name: "cancelling", run: cancelling, quick: 60_000, thorough: 3_000_000 },
			World { name: "cancelling_no_invoke", run: cancelling_no_invoke, quick: 20_000, thorough: 600_000 },
			World { name: "scheduler_threads", run: scheduler_threads, quick: 10_000, thorough: 400_000 },
		],
		rule: "distinct hashes over the sequence of operations, work executions and thread switches of a run, with more than 3 events",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["fault:cancelled", "fault:invoke_cancelled"],
	});
}
