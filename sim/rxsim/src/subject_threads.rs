//! R06: many threads using the same subject.
use crate::common::*;
use crate::subjects::{AnySubject, Kind, make};

#[derive(Clone, Debug)]
enum Op {
	Next,
	Subscribe,
	Unsubscribe(u32),
	Drop(u32),
	Complete,
	Error,
	UnsubscribeAll,
}

struct Call {
	thread: usize,
	op: Op,
	/// The value, or the id of the subscriber
	id: V,
	start: u64,
	end: u64,
}

struct Live {
	subject: Arc<dyn AnySubject>,
	clock: AtomicU64,
	calls: Mutex<Vec<Call>>,
	seen: Mutex<BTreeMap<u32, Seen>>,
	slots: Slots,
	next_id: AtomicU64,
}

impl Live {
	fn tick(&self) -> u64 {
		self.clock.fetch_add(1, Ordering::Relaxed) + 1
	}

	fn call(&self, thread: usize, op: &Op, serial: u32) {
		let mut id = 0;
		let start = self.tick();
		match op {
			Op::Next => {
				id = (thread as V + 1) * 1000 + serial as V;
				ev!("next {id}");
				self.subject.next(id);
			}
			Op::Subscribe => {
				id = self.next_id.fetch_add(1, Ordering::Relaxed) as V + 1;
				ev!("subscribe {id}");
				let (probe, seen) = Probe::new(id as u32, None);
				self.seen.lock().unwrap().insert(id as u32, seen);
				let subscription = self.subject.subscribe(probe);
				self.slots.put(id as u32, subscription);
			}
			Op::Unsubscribe(n) => {
				if let Some(mut subscription) = self.slots.take(*n) {
					id = *n as V;
					count("fault:unsubscribe");
					ev!("unsubscribe {n}");
					subscription.unsubscribe();
				}
			}
			Op::Drop(n) => {
				if let Some(subscription) = self.slots.take(*n) {
					id = *n as V;
					count("fault:drop_subscription");
					ev!("drop {n}");
					drop(subscription);
				}
			}
			Op::Complete => {
				ev!("complete");
				self.subject.complete();
			}
			Op::Error => {
				id = serial as V;
				ev!("error");
				self.subject.error(serial);
			}
			Op::UnsubscribeAll => {
				ev!("unsubscribe all");
				self.subject.unsubscribe();
			}
		}
		let end = self.tick();
		ev!("done");
		self.calls.lock().unwrap().push(Call { thread, op: op.clone(), id, start, end });
	}
}

fn world(terminals: u32) {
	let live = Arc::new(Live {
		subject: make(Kind::Publish),
		clock: AtomicU64::new(0),
		calls: Mutex::default(),
		seen: Mutex::default(),
		slots: Slots::default(),
		next_id: AtomicU64::new(0),
	});
	let initial = draw_range(1, 2);
	for i in 0..initial {
		live.call(9, &Op::Subscribe, i);
	}
	let n = draw_range(2, 3) as usize;
	let busy = chance(1, 8);
	let mut ended = false;
	let mut programs: Vec<Vec<Op>> = vec![];
	for _ in 0..n {
		let mut ops = vec![];
		let (ops_at_most, next) = if busy { (20, 60) } else { (4, 6) };
		for _ in 0..draw_range(1, ops_at_most) {
			let op = match weighted(&[next, 3, 3, 1, terminals]) {
				0 => Op::Next,
				1 => Op::Subscribe,
				2 => Op::Unsubscribe(draw_range(1, 4)),
				3 => Op::Drop(draw_range(1, 4)),
				_ => match draw(3) {
					0 => Op::Complete,
					1 => Op::Error,
					_ => Op::UnsubscribeAll,
				},
			};
			ended |= matches!(op, Op::Complete | Op::Error | Op::UnsubscribeAll);
			ops.push(op);
		}
		programs.push(ops);
	}
	let closures: Vec<Box<dyn FnOnce() + Send>> = programs
		.into_iter()
		.enumerate()
		.map(|(thread, ops)| {
			let live = live.clone();
			Box::new(move || {
				for (serial, op) in ops.iter().enumerate() {
					step("a request on the subject", || live.call(thread, op, serial as u32));
				}
			}) as Box<dyn FnOnce() + Send>
		})
		.collect();
	threads(pick(&[3, 2, 6, 20]), closures);
	if busy {
		count("probe:kept_sending");
	}
	if violated() {
		return;
	}

	let calls = live.calls.lock().unwrap();
	let seen: Vec<Seen> = live.seen.lock().unwrap().values().cloned().collect();
	let first_end = calls
		.iter()
		.filter(|c| matches!(c.op, Op::Complete | Op::Error | Op::UnsubscribeAll))
		.map(|c| (c.start, c.end))
		.fold((u64::MAX, u64::MAX), |a, b| (a.0.min(b.0), a.1.min(b.1)));
	for s in &seen {
		s.check_grammar("the subject");
		let values = s.values();
		let log = s.log();
		let subscribed = calls.iter().find(|c| matches!(c.op, Op::Subscribe) && c.id == s.name as V).unwrap();
		let removed = calls.iter().find(|c| matches!(c.op, Op::Unsubscribe(_) | Op::Drop(_)) && c.id == s.name as V);
		for (i, v) in values.iter().enumerate() {
			if values[..i].contains(v) {
				violation("duplicated", format!("subscriber {} observed {v} twice: {log:?}", s.name));
			}
			if values[..i].iter().any(|w| w / 1000 == v / 1000 && w > v) {
				violation("producer-order", format!("subscriber {} observed values out of order: {log:?}", s.name));
			}
			if let Some(removed) = removed {
				let call = calls.iter().find(|c| matches!(c.op, Op::Next) && c.id == *v).unwrap();
				check!(
					call.start < removed.end,
					"after-unsubscribe",
					"subscriber {} observed {v}, which was only pushed after its unsubscription: {log:?}",
					s.name
				);
			}
		}
		for call in calls.iter().filter(|c| matches!(c.op, Op::Next)) {
			let until = removed.map_or(u64::MAX, |r| r.start).min(first_end.0);
			let observed = values.contains(&call.id);
			if call.start > subscribed.end && call.end < until {
				check!(observed, "lost", "subscriber {} did not observe {} (thread {}): {log:?}", s.name, call.id, call.thread);
			}
			if call.end < subscribed.start {
				check!(!observed, "too-early", "subscriber {} observed {} from before it subscribed: {log:?}", s.name, call.id);
			}
		}
		if removed.is_some() || first_end.0 != u64::MAX {
			check!(s.closed(), "left-open", "subscriber {} should be closed by now: {log:?}", s.name);
		}
		check!(
			s.teardowns() == s.closed() as u32,
			"teardown-count",
			"the teardown of subscriber {} was executed {} times",
			s.name,
			s.teardowns()
		);
		if let Some(terminal) = s.terminal() {
			let fits = calls.iter().any(|c| match (&terminal, &c.op) {
				(Sig::Complete, Op::Complete) => true,
				(Sig::Error(e), Op::Error) => *e as V == c.id,
				_ => false,
			});
			check!(fits, "made-up-terminal", "subscriber {} observed {log:?}", s.name);
		}
	}
	for a in &seen {
		for b in &seen {
			let (va, vb) = (a.values(), b.values());
			let ca: Vec<V> = va.iter().copied().filter(|v| vb.contains(v)).collect();
			let cb: Vec<V> = vb.iter().copied().filter(|v| va.contains(v)).collect();
			check!(ca == cb, "disagree", "subscribers {} and {} disagree on the order: {ca:?}, {cb:?}", a.name, b.name);
			if let (Some(ta), Some(tb)) = (a.terminal(), b.terminal()) {
				check!(ta == tb, "disagree-terminal", "subscribers {} and {} disagree on the end: {ta:?}, {tb:?}", a.name, b.name);
			}
		}
	}
	drop(calls);
	step("closing every subscription", || live.slots.clear());
	for s in &seen {
		s.check_grammar("the subject");
		check!(s.closed() && s.teardowns() == 1, "leaked", "subscriber {} was not released once closed: {:?}", s.name, s.log());
	}
	let _ = ended;
}

pub fn values() {
	world(0);
}

pub fn terminals() {
	world(1);
}
