//! R21: work scheduled in an app runs in the schedule and on the clock of the
//! executor it was given to.
use crate::stage::*;
use bevy_app::FixedUpdate;
use bevy_time::{TimePlugin, TimeUpdateStrategy};
use rx_core_common::{InvokedTaskFactory, WorkInvokeId};
use rx_core_common::{WorkCancellationId, WorkResult};
use rx_core_scheduler_ticking::Tick;

/// A schedule that's not part of a frame, run by the app when it likes
#[derive(ScheduleLabel, Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
struct Own;

/// A clock that only moves when the app moves it
#[derive(Default, Clone, Copy, Debug)]
struct OwnClock;

const EXECS: usize = 7;
const NAMES: [&str; EXECS] = ["PreUpdate", "FixedUpdate", "Update", "Update (real)", "PostUpdate", "Last", "Own"];
const OWN: usize = 6;
const SLOTS: usize = 2;

#[derive(Clone, Copy, Debug)]
enum Kind {
	Immediate,
	Delayed(u64),
	Repeated { interval: u64, start: bool, max: usize },
	Continuous,
	Invoked(usize),
}

#[derive(Clone, Debug)]
struct Spec {
	id: u32,
	exec: usize,
	slot: usize,
	kind: Kind,
	/// Is done on this run, never if 0
	done_after: u32,
	/// What the nth run does
	nested: Vec<Vec<Op>>,
	/// The nth run has this done once the executor is done
	deferred: Vec<Vec<Op>>,
}

#[derive(Clone, Debug)]
enum Op {
	Schedule(Spec),
	Cancel(usize, usize),
	Invoke(usize, usize),
	CancelInvoked(usize, usize),
}

#[derive(Clone, Debug)]
enum Act {
	Op(Op),
	Pause,
	Unpause,
	Speed(u32),
	/// The virtual clock jumps forward within a frame
	Jump(u64),
	/// The virtual clock starts over
	Reset,
	MoveOwn(u64),
	RunOwn,
	Timestep(u64),
}

struct Gen {
	next_id: u32,
	execs: Vec<usize>,
}

impl Gen {
	fn spec(&mut self, depth: u32) -> Spec {
		self.next_id += 1;
		let id = self.next_id;
		let exec = self.execs[draw(self.execs.len() as u32) as usize];
		let kind = match weighted(&[3, 4, 4, 3, 2]) {
			0 => Kind::Immediate,
			1 => Kind::Delayed(pick(&[0, 1, 10, 16, 20, 50, 100, 300])),
			2 => Kind::Repeated { interval: pick(&[10, 1, 7, 16, 50]), start: chance(1, 2), max: pick(&[1usize, 2, 1000]) },
			3 => Kind::Continuous,
			_ => Kind::Invoked(draw(SLOTS as u32) as usize),
		};
		let mut lists = |p: u32| -> Vec<Vec<Op>> {
			let mut all = Vec::new();
			if depth > 0 && chance(1, p) {
				for _ in 0..draw_range(1, 3) {
					all.push((0..draw(3)).map(|_| self.op(depth - 1)).collect());
				}
			}
			all
		};
		let nested = lists(3);
		let deferred = lists(5);
		Spec { id, exec, slot: draw(SLOTS as u32) as usize, kind, done_after: pick(&[1, 0, 2, 3, 5]), nested, deferred }
	}

	fn op(&mut self, depth: u32) -> Op {
		let exec = self.execs[draw(self.execs.len() as u32) as usize];
		let slot = draw(SLOTS as u32) as usize;
		match weighted(&[7, 2, 3, 1]) {
			0 => Op::Schedule(self.spec(depth)),
			1 => Op::Cancel(exec, slot),
			2 => Op::Invoke(exec, slot),
			_ => Op::CancelInvoked(exec, slot),
		}
	}

	fn act(&mut self) -> Act {
		match weighted(&[10, 1, 1, 1, 1, 1, 2, 3, 1]) {
			0 => Act::Op(self.op(2)),
			1 => Act::Pause,
			2 => Act::Unpause,
			3 => Act::Speed(pick(&[100, 50, 200, 25, 0, 300])),
			4 => Act::Jump(pick(&[1, 10, 100, 1000, 4_000_000])),
			5 => match chance(1, 3) {
				true => Act::Reset,
				false => Act::Unpause,
			},
			6 => Act::MoveOwn(pick(&[1, 10, 16, 100, 100, 4_000_000])),
			7 => Act::RunOwn,
			_ => Act::Timestep(pick(&[16, 10, 5, 40])),
		}
	}
}

// ───────────────────────── the real one

/// One run of a work
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Ran {
	work: u32,
	exec: usize,
	/// What the work was told the time is
	nanos: u64,
}

struct Ids {
	cancellation: Vec<WorkCancellationId>,
	invoke: Vec<WorkInvokeId>,
}

#[derive(Clone, Default)]
struct Real(Arc<Mutex<RealState>>);

#[derive(Default)]
struct RealState {
	handles: Vec<BevyHandle>,
	ids: Vec<Arc<Ids>>,
	log: Vec<Ran>,
	/// The executor that's running, as far as the schedules go
	running: Option<usize>,
	deferred_left: u32,
}

impl Real {
	fn with<R>(&self, f: impl FnOnce(&mut RealState) -> R) -> R {
		f(&mut self.0.lock().unwrap())
	}

	fn issue(&self, op: &Op) {
		let get = |exec: usize| self.with(|s| (s.handles[exec].clone(), s.ids[exec].clone()));
		match op {
			Op::Cancel(exec, slot) => {
				let (handle, ids) = get(*exec);
				handle.lock().cancel(ids.cancellation[*slot]);
			}
			Op::Invoke(exec, slot) => {
				let (handle, ids) = get(*exec);
				handle.lock().invoke(ids.invoke[*slot]);
			}
			Op::CancelInvoked(exec, slot) => {
				let (handle, ids) = get(*exec);
				handle.lock().cancel_invoked(ids.invoke[*slot]);
			}
			Op::Schedule(spec) => {
				let (handle, ids) = get(spec.exec);
				let mut runs = 0;
				let (spec, real) = (spec.clone(), self.clone());
				let id = ids.cancellation[spec.slot];
				let kind = spec.kind;
				let slot = spec.slot;
				let mut body = move |tick: Tick, context: &mut RxBevyContextItem<'_>| -> WorkResult {
					runs += 1;
					real.ran(&spec, runs, tick, context)
				};
				match kind {
					Kind::Immediate => handle.lock().schedule_immediate_work(
						move |tick: Tick, context: &mut RxBevyContextItem<'_>| {
							body(tick, context);
						},
						id,
					),
					Kind::Delayed(delay) => handle.lock().schedule_delayed_work(
						move |tick: Tick, context: &mut RxBevyContextItem<'_>| {
							body(tick, context);
						},
						ms(delay),
						id,
					),
					Kind::Repeated { interval, start, max } => handle.lock().schedule_repeated_work(
						move |tick: Tick, context: &mut RxBevyContextItem<'_>| body(tick, context),
						ms(interval),
						start,
						max,
						id,
					),
					Kind::Continuous => handle
						.lock()
						.schedule_continuous_work(move |tick: Tick, context: &mut RxBevyContextItem<'_>| body(tick, context), id),
					Kind::Invoked(_) => {
						let work = <RxBevyScheduler as Scheduler>::InvokedWorkFactory::new(
							move |tick: Tick, context: &mut RxBevyContextItem<'_>| body(tick, context),
						);
						handle.lock().schedule_invoked_work(work, ids.invoke[slot])
					}
				}
			}
		}
	}

	fn ran(&self, spec: &Spec, runs: u32, tick: Tick, context: &mut RxBevyContextItem<'_>) -> WorkResult {
		let nanos = tick.now().as_nanos() as u64;
		ev!("work {} runs in {} at {}us", spec.id, NAMES[spec.exec], nanos / 1000);
		let running = self.with(|s| {
			s.log.push(Ran { work: spec.id, exec: spec.exec, nanos });
			s.running
		});
		check!(
			running == Some(spec.exec),
			"wrong-schedule",
			"work {} was scheduled for {}, it ran in {:?}",
			spec.id,
			NAMES[spec.exec],
			running.map(|e| NAMES[e])
		);
		let clock = clock_of(spec.exec, &context.deferred_world);
		check!(
			clock == nanos,
			"wrong-clock",
			"work {} of {} was told {}us, its clock says {}us",
			spec.id,
			NAMES[spec.exec],
			nanos / 1000,
			clock / 1000
		);
		for op in spec.nested.get(runs as usize - 1).into_iter().flatten() {
			self.issue(op);
		}
		if let Some(ops) = spec.deferred.get(runs as usize - 1).filter(|ops| !ops.is_empty()) {
			let (real, ops) = (self.clone(), ops.clone());
			self.with(|s| s.deferred_left += 1);
			context.deferred_world.commands().queue(move |_: &mut Ecs| {
				real.with(|s| s.deferred_left -= 1);
				for op in &ops {
					real.issue(op);
				}
			});
		}
		match spec.done_after != 0 && runs >= spec.done_after {
			true => WorkResult::Done,
			false => WorkResult::Pending,
		}
	}
}

fn clock_of(exec: usize, world: &Ecs) -> u64 {
	(match exec {
		1 => world.resource::<Time<Fixed>>().elapsed(),
		3 => world.resource::<Time<bevy_time::Real>>().elapsed(),
		OWN => world.resource::<Time<OwnClock>>().elapsed(),
		_ => world.resource::<Time<Virtual>>().elapsed(),
	})
	.as_nanos() as u64
}

// ───────────────────────── the model

struct Work {
	spec: Spec,
	scheduled_on: u64,
	consumed: u64,
	start: bool,
	runs: u32,
}

#[derive(Default)]
struct Exec {
	now: u64,
	scheduler_now: u64,
	queue: Vec<Result<Work, Op>>,
	active: Vec<Work>,
	invokable: BTreeMap<usize, Work>,
	invoked: Vec<usize>,
}

#[derive(Default)]
struct Model {
	execs: Vec<Exec>,
	log: Vec<Ran>,
	deferred: Vec<Op>,
}

const MS: u64 = 1_000_000;

impl Model {
	fn issue(&mut self, op: &Op) {
		match op {
			Op::Schedule(spec) => {
				let exec = &mut self.execs[spec.exec];
				exec.queue.push(Ok(Work {
					spec: spec.clone(),
					scheduled_on: exec.scheduler_now,
					consumed: exec.scheduler_now,
					start: matches!(spec.kind, Kind::Repeated { start: true, .. }),
					runs: 0,
				}));
			}
			Op::Cancel(exec, _) | Op::Invoke(exec, _) | Op::CancelInvoked(exec, _) => {
				self.execs[*exec].queue.push(Err(op.clone()));
			}
		}
	}

	fn body(&mut self, work: &mut Work, tick: u64) -> bool {
		work.runs += 1;
		self.log.push(Ran { work: work.spec.id, exec: work.spec.exec, nanos: tick });
		let nth = work.runs as usize - 1;
		for op in work.spec.nested.get(nth).cloned().into_iter().flatten() {
			self.issue(&op);
		}
		self.deferred.extend(work.spec.deferred.get(nth).cloned().into_iter().flatten());
		work.spec.done_after != 0 && work.runs >= work.spec.done_after
	}

	fn run_work(&mut self, work: &mut Work, tick: u64) -> bool {
		let now = self.execs[work.spec.exec].now;
		match work.spec.kind {
			Kind::Immediate => {
				self.body(work, tick);
				true
			}
			Kind::Delayed(delay) => {
				let due = work.scheduled_on + delay * MS <= now;
				if due {
					self.body(work, tick);
				}
				due
			}
			Kind::Repeated { interval, max, .. } => {
				let mut executed = 0;
				let mut done = false;
				if work.start {
					done = self.body(work, tick);
					work.start = false;
					executed += 1;
				}
				while !done && work.consumed + interval * MS <= now {
					if executed < max {
						done = self.body(work, tick);
					}
					work.consumed += interval * MS;
					executed += 1;
				}
				done
			}
			Kind::Continuous => self.body(work, tick),
			Kind::Invoked(_) => unreachable!(),
		}
	}

	/// The executor runs in its schedule
	fn tick(&mut self, exec: usize, tick: u64) {
		let e = &mut self.execs[exec];
		e.now = e.now.max(tick);
		let mut ticked: Vec<u32> = Vec::new();
		loop {
			let e = &mut self.execs[exec];
			let had_actions = !e.queue.is_empty();
			e.scheduler_now = e.scheduler_now.max(tick);
			for queued in std::mem::take(&mut e.queue) {
				match queued {
					Ok(work) => match work.spec.kind {
						Kind::Invoked(_) => {
							e.invokable.insert(work.spec.slot, work);
						}
						_ => e.active.push(work),
					},
					Err(Op::Cancel(_, slot)) => e.active.retain(|w| w.spec.slot != slot),
					Err(Op::Invoke(_, slot)) => e.invoked.push(slot),
					Err(Op::CancelInvoked(_, slot)) => {
						e.invokable.remove(&slot);
						e.invoked.retain(|s| *s != slot);
					}
					Err(Op::Schedule(_)) => unreachable!(),
				}
			}
			let mut any = false;
			for mut work in std::mem::take(&mut e.active) {
				let again = ticked.contains(&work.spec.id);
				let mut done = false;
				if !again {
					any = true;
					ticked.push(work.spec.id);
					done = self.run_work(&mut work, tick);
				}
				if !done {
					self.execs[exec].active.push(work);
				}
			}
			for slot in std::mem::take(&mut self.execs[exec].invoked) {
				if let Some(mut work) = self.execs[exec].invokable.remove(&slot) {
					if !self.body(&mut work, tick) {
						self.execs[exec].invokable.insert(slot, work);
					}
				}
			}
			if !any && !had_actions {
				break;
			}
		}
	}
}

// ───────────────────────── the app

#[derive(Resource, Clone)]
struct Both {
	real: Real,
	model: Arc<Mutex<Model>>,
}

/// Just before the executor
fn before<const N: usize>(world: &mut Ecs) {
	let both = world.resource::<Both>().clone();
	let clock = clock_of(N, world);
	ev!("-- {} at {}us", NAMES[N], clock / 1000);
	both.real.with(|s| s.running = Some(N));
	let mut model = both.model.lock().unwrap();
	model.tick(N, clock);
	// Commands of the works are applied before anything else runs
	for op in std::mem::take(&mut model.deferred) {
		model.issue(&op);
	}
}

/// Just after it
fn after<const N: usize>(world: &mut Ecs) {
	let both = world.resource::<Both>().clone();
	let left = both.real.with(|s| {
		s.running = None;
		s.deferred_left
	});
	check!(left == 0, "commands-not-applied", "commands given by works of {} are not applied after its executor", NAMES[N]);
	let log = both.real.with(|s| std::mem::take(&mut s.log));
	let expected = std::mem::take(&mut both.model.lock().unwrap().log);
	if !log.is_empty() {
		count("probe:work_ran");
	}
	if log != expected && !violated() {
		let same = log.iter().zip(&expected).take_while(|(a, b)| a == b).count();
		let (kind, details) = match (log.get(same), expected.get(same)) {
			(None, Some(_)) => ("work-not-run", "did not run what was due"),
			(Some(_), None) => ("work-run", "ran what was not due"),
			_ => ("work-order", "did not run what was due in order"),
		};
		violation(
			kind,
			format!("{} {details}: it ran {:?}, but {:?} was expected", NAMES[N], log[same..].iter().take(8).collect::<Vec<_>>(), expected[same..].iter().take(8).collect::<Vec<_>>()),
		);
	}
}

fn add<const N: usize, S: ScheduleLabel + Default + Clone, C: Clock>(app: &mut App) {
	if N != 5 {
		app.add_plugins(RxSchedulerPlugin::<S, C>::default());
	}
	app.add_systems(S::default(), (before::<N>.before(rx_executor::<S, C>), after::<N>.after(rx_executor::<S, C>)));
	let handle = handle_of::<S, C>(app.world_mut());
	let ids = Arc::new({
		let mut scheduler = handle.lock();
		Ids {
			cancellation: (0..SLOTS).map(|_| scheduler.generate_cancellation_id()).collect(),
			invoke: (0..SLOTS).map(|_| scheduler.generate_invoke_id()).collect(),
		}
	});
	let both = app.world().resource::<Both>().clone();
	both.real.with(|s| {
		s.handles.push(handle);
		s.ids.push(ids);
	});
	both.model.lock().unwrap().execs.push(Exec::default());
}

struct Script {
	acts: BTreeMap<(u32, u32), Vec<Act>>,
	frame: u32,
}

fn act(both: &Both, world: &mut Ecs, point: u32, act: &Act) {
	ev!("{act:?}");
	match act {
		Act::Op(op) => {
			if matches!(op, Op::Cancel(..) | Op::CancelInvoked(..)) {
				count("fault:cancelled");
			}
			both.real.issue(op);
			both.model.lock().unwrap().issue(op);
		}
		Act::Pause => {
			count("fault:paused");
			world.resource_mut::<Time<Virtual>>().pause();
		}
		Act::Unpause => world.resource_mut::<Time<Virtual>>().unpause(),
		Act::Speed(percent) => {
			count("fault:clock_speed");
			world.resource_mut::<Time<Virtual>>().set_relative_speed(*percent as f32 / 100.);
		}
		Act::Jump(by) => {
			count("fault:clock_jump");
			// Before the fixed schedules it would take as many runs of them
			let by = if point < 3 { (*by).min(1000) } else { *by };
			world.resource_mut::<Time<Virtual>>().advance_by(ms(by));
		}
		Act::Reset => {
			count("fault:clock_went_backwards");
			world.insert_resource(Time::<Virtual>::default());
		}
		Act::MoveOwn(by) => world.resource_mut::<Time<OwnClock>>().advance_by(ms(*by)),
		Act::RunOwn => {
			count("probe:own_schedule");
			world.run_schedule(Own);
		}
		Act::Timestep(step) => {
			count("fault:timestep");
			world.resource_mut::<Time<Fixed>>().set_timestep(ms(*step));
		}
	}
}

fn run() {
	let frames = draw_range(3, 9);
	let execs = match draw(3) {
		0 => (0..EXECS).collect(),
		_ => {
			let mut some: Vec<usize> = (0..EXECS).filter(|_| chance(2, 5)).collect();
			if some.is_empty() {
				some.push(2);
			}
			some
		}
	};
	let mut generator = Gen { next_id: 0, execs };
	let mut script = Script { acts: BTreeMap::new(), frame: 0 };
	let busy = draw_range(1, 3);
	for frame in 0..frames {
		for point in 0..POINTS {
			let n = draw(busy + 2).saturating_sub(1).min(3);
			script.acts.insert((frame, point), (0..n).map(|_| generator.act()).collect());
		}
	}
	let both = Both { real: Real::default(), model: Arc::default() };
	let script = Arc::new(Mutex::new(script));
	let (both_2, script_2) = (both.clone(), script.clone());
	let mut app = stage(Arc::new(move |world, point| {
		let acts = {
			let script = script_2.lock().unwrap();
			script.acts.get(&(script.frame, point)).cloned().unwrap_or_default()
		};
		for one in &acts {
			if violated() {
				return;
			}
			act(&both_2, world, point, one);
		}
	}));
	app.add_plugins(TimePlugin);
	app.add_plugins(RxPlugin);
	app.insert_resource(Time::<OwnClock>::default());
	app.insert_resource(both.clone());
	app.init_schedule(Own);
	add::<0, PreUpdate, Virtual>(&mut app);
	add::<1, FixedUpdate, Fixed>(&mut app);
	add::<2, Update, Virtual>(&mut app);
	add::<3, Update, bevy_time::Real>(&mut app);
	add::<4, PostUpdate, Virtual>(&mut app);
	add::<5, Last, Virtual>(&mut app);
	add::<OWN, Own, OwnClock>(&mut app);
	// The two in the same schedule, in an order
	fn between() {}
	app.add_systems(Update, between.after(after::<2>).before(before::<3>));

	let mut frame = |app: &mut App, frame: u32| {
		let delta = match weighted(&[10, 2, 2, 2]) {
			0 => pick(&[16, 10, 5, 20]),
			1 => {
				count("fault:zero_tick");
				0
			}
			2 => {
				count("fault:lag_spike");
				pick(&[100, 240, 1000, 1000, 4_000_000])
			}
			_ => 1,
		};
		ev!("== frame {frame}, {delta}ms");
		script.lock().unwrap().frame = frame;
		sim_time(delta);
		app.insert_resource(TimeUpdateStrategy::ManualDuration(ms(delta)));
		step("a frame", || app.update()).is_some() && !violated()
	};
	for n in 0..frames {
		if !frame(&mut app, n) {
			std::mem::forget(app);
			return;
		}
	}
	// Nothing may be left once everything is cancelled
	let mut n = frames;
	for _ in 0..4 {
		for exec in 0..EXECS {
			for slot in 0..SLOTS {
				for op in [Op::Cancel(exec, slot), Op::CancelInvoked(exec, slot)] {
					both.real.issue(&op);
					both.model.lock().unwrap().issue(&op);
				}
			}
		}
		app.world_mut().resource_mut::<Time<Virtual>>().advance_by(ms(100));
		if step("the own schedule", || app.world_mut().run_schedule(Own)).is_none() || !frame(&mut app, n) {
			std::mem::forget(app);
			return;
		}
		n += 1;
	}
	let world = app.world();
	let empty = [
		world.resource::<RxBevyExecutor<PreUpdate, Virtual>>().is_empty(),
		world.resource::<RxBevyExecutor<FixedUpdate, Fixed>>().is_empty(),
		world.resource::<RxBevyExecutor<Update, Virtual>>().is_empty(),
		world.resource::<RxBevyExecutor<Update, bevy_time::Real>>().is_empty(),
		world.resource::<RxBevyExecutor<PostUpdate, Virtual>>().is_empty(),
		world.resource::<RxBevyExecutor<Last, Virtual>>().is_empty(),
		world.resource::<RxBevyExecutor<Own, OwnClock>>().is_empty(),
	];
	{
		let model = both.model.lock().unwrap();
		for exec in 0..EXECS {
			let expected = model.execs[exec].active.is_empty() && model.execs[exec].invokable.is_empty();
			check!(
				empty[exec] == expected,
				"executor-emptiness",
				"the executor of {} says is_empty() = {}, {} works are left in it",
				NAMES[exec],
				empty[exec],
				model.execs[exec].active.len() + model.execs[exec].invokable.len()
			);
			if expected {
				count("probe:drained");
			}
		}
	}
	both.real.with(|s| s.handles.clear());
	step("dropping the app", || drop(app));
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R21",
		worlds: vec![World { name: "clocks", run, quick: 20_000, thorough: 2_000_000 }],
		rule: "after every run of every executor, what ran in it, in which order and at what time is compared with a reference model that is ticked \
			by the harness with what the clock of the executor says at that point of the frame; at the end executors have to agree on being empty",
		real: REAL_BEVY,
		stubs: STUB_BEVY,
		probes: &[
			"probe:work_ran",
			"probe:own_schedule",
			"probe:drained",
			"fault:paused",
			"fault:clock_speed",
			"fault:clock_jump",
			"fault:clock_went_backwards",
			"fault:zero_tick",
			"fault:lag_spike",
			"fault:timestep",
			"fault:cancelled",
		],
	});
}
