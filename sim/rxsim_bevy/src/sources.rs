//! R22: what happens in the app becomes signals: messages, entity events,
//! keys, changes of a resource, and signals become changes of a resource.
use crate::stage::*;
use bevy_ecs::event::EntityEvent;
use bevy_ecs::message::{Message, Messages};
use bevy_ecs::observer::Observer;
use std::collections::BTreeSet;
use std::sync::atomic::AtomicU32;
use bevy_input::{ButtonInput, keyboard::KeyCode};

#[derive(Message, Clone, Debug)]
struct Mail(V);

#[derive(EntityEvent, Clone, Debug)]
struct Knock {
	entity: Entity,
	value: V,
}

#[derive(Resource, Debug)]
struct Gauge(V);

const KEYS: [KeyCode; 4] = [KeyCode::KeyA, KeyCode::KeyB, KeyCode::KeyC, KeyCode::KeyD];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
	JustPressed,
	JustReleased,
	WhilePressed,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
	Mail,
	Knock(usize),
	Keys(Mode),
	Gauge { added: bool, changed: bool },
}

#[derive(Clone, Copy, Debug)]
enum Reaction {
	/// Is done with it
	UnsubscribeSelf,
	Unsubscribe(u32),
	/// Has the resource written
	Write(V),
}

#[derive(Clone, Debug)]
enum Act {
	Subscribe { kind: Kind, when: When, limit: Option<u32>, reactions: BTreeMap<u32, Reaction> },
	Mail(V),
	Knock(usize, V),
	Despawn(usize),
	Press(usize),
	Release(usize),
	ClearKeys,
	Insert(V),
	Mutate(V),
	/// Looks at it, mutably
	Peek,
	Remove,
	/// Through its destination
	Write(V),
	Unsubscribe(u32),
	Drop(u32),
}

struct Setup {
	entities: usize,
	gauge: Option<V>,
	writer: When,
	frames: u32,
	acts: BTreeMap<(u32, u32), Vec<Act>>,
}

impl Setup {
	fn draw() -> Setup {
		let mut setup = Setup {
			entities: draw_range(1, 2) as usize,
			gauge: chance(1, 2).then_some(-1),
			writer: draw_when(),
			frames: draw_range(3, 7),
			acts: BTreeMap::new(),
		};
		let kinds = pick(&[[1, 1, 1, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 1], [1, 0, 0, 1]]);
		let mut values = 0;
		let busy = draw_range(1, 3);
		for frame in 0..setup.frames {
			for point in 0..POINTS {
				let n = draw(busy + 2).min(4);
				let acts = (0..n).map(|_| setup.draw_act(&kinds, &mut values)).collect();
				setup.acts.insert((frame, point), acts);
			}
		}
		setup
	}

	fn draw_act(&self, kinds: &[u32; 4], values: &mut V) -> Act {
		*values += 1;
		let kind = weighted(kinds);
		match weighted(&[3, 9, 1, 1]) {
			0 => {
				let kind = match kind {
					0 => Kind::Mail,
					1 => Kind::Knock(draw(self.entities as u32) as usize),
					2 => Kind::Keys(pick(&[Mode::JustPressed, Mode::JustReleased, Mode::WhilePressed])),
					_ => Kind::Gauge { added: !chance(1, 4), changed: !chance(1, 4) },
				};
				let limit = chance(1, 5).then(|| draw_range(1, 4));
				let mut reactions = BTreeMap::new();
				for nth in 1..5 {
					if limit != Some(nth) && chance(1, 6) {
						*values += 1;
						let reaction = match weighted(&[2, 2, 2]) {
							0 => Reaction::UnsubscribeSelf,
							1 => Reaction::Unsubscribe(draw(16)),
							_ => Reaction::Write(*values),
						};
						reactions.insert(nth, reaction);
					}
				}
				Act::Subscribe { kind, when: draw_when(), limit, reactions }
			}
			1 => match kind {
				0 => Act::Mail(*values),
				1 => match weighted(&[12, 1]) {
					0 => Act::Knock(draw(self.entities as u32) as usize, *values),
					_ => Act::Despawn(draw(self.entities as u32) as usize),
				},
				2 => match weighted(&[4, 3, 2]) {
					0 => Act::Press(draw(4) as usize),
					1 => Act::Release(draw(4) as usize),
					_ => Act::ClearKeys,
				},
				_ => match weighted(&[2, 4, 2, 1, 3]) {
					0 => Act::Insert(*values),
					1 => Act::Mutate(*values),
					2 => Act::Peek,
					3 => Act::Remove,
					_ => Act::Write(*values),
				},
			},
			2 => Act::Unsubscribe(draw(16)),
			_ => Act::Drop(draw(16)),
		}
	}
}

fn draw_when() -> When {
	pick(&[When::Update, When::Update, When::PreUpdate, When::PostUpdate, When::Last])
}

// ───────────────────────── the model

#[derive(Clone, Debug, PartialEq)]
enum Item {
	Sig(Sig),
	/// Some value of a set, each one at most once
	Of(u32, Vec<V>),
}

struct MSub {
	kind: Kind,
	when: When,
	limit: Option<u32>,
	reactions: BTreeMap<u32, Reaction>,
	closed: bool,
	log: Vec<Item>,
	values: u32,
	handle: bool,
	/// Which messages were read already
	cursor: u64,
	/// The resource was there
	existed: Option<u64>,
	looked: u64,
	listening: bool,
}

#[derive(Clone, Copy)]
enum Job {
	Sub(usize),
	Write(V),
}

enum Req {
	Activate(Job),
	Cancel(usize),
}

#[derive(Default)]
struct Exec {
	queue: Vec<Req>,
	active: Vec<(u64, Job)>,
	next: u64,
}

#[derive(Clone, Copy)]
struct MGauge {
	value: V,
	changed: u64,
	generation: u64,
}

struct Model<'a> {
	setup: &'a Setup,
	subs: Vec<MSub>,
	execs: BTreeMap<When, Exec>,
	mails: Vec<(u64, V, u32)>,
	mail_count: u64,
	alive: Vec<bool>,
	pressed: BTreeSet<usize>,
	just_pressed: BTreeSet<usize>,
	just_released: BTreeSet<usize>,
	gauge: Option<MGauge>,
	now: u64,
	groups: u32,
	listen: Vec<usize>,
	/// Something unspecified made a difference
	unsure: bool,
}

impl<'a> Model<'a> {
	fn new(setup: &'a Setup) -> Self {
		Model {
			setup,
			subs: Vec::new(),
			execs: BTreeMap::new(),
			mails: Vec::new(),
			mail_count: 0,
			alive: vec![true; setup.entities],
			pressed: BTreeSet::new(),
			just_pressed: BTreeSet::new(),
			just_released: BTreeSet::new(),
			gauge: setup.gauge.map(|value| MGauge { value, changed: 0, generation: 0 }),
			now: 1,
			groups: 0,
			listen: Vec::new(),
			unsure: false,
		}
	}

	fn request(&mut self, when: When, req: Req) {
		self.execs.entry(when).or_default().queue.push(req);
	}

	fn close(&mut self, n: usize) {
		self.subs[n].closed = true;
		self.request(self.subs[n].when, Req::Cancel(n));
	}

	fn unsubscribe(&mut self, n: usize) {
		if !self.subs[n].closed {
			self.subs[n].log.push(Item::Sig(Sig::Unsub));
			self.close(n);
		}
	}

	fn emit(&mut self, n: usize, item: Item) {
		if self.subs[n].closed {
			return;
		}
		let sub = &mut self.subs[n];
		let terminal = matches!(&item, Item::Sig(sig) if sig.is_terminal());
		sub.log.push(item);
		if terminal {
			self.close(n);
			return;
		}
		sub.values += 1;
		let full = Some(sub.values) == sub.limit;
		if let Some(reaction) = sub.reactions.get(&sub.values).copied() {
			match reaction {
				Reaction::UnsubscribeSelf => self.unsubscribe(n),
				Reaction::Unsubscribe(other) => {
					let other = other as usize % self.subs.len();
					if ordered(self.subs[n].kind, self.subs[other].kind) && self.subs[other].handle {
						self.unsubscribe(other);
					}
				}
				Reaction::Write(v) => self.request(self.setup.writer, Req::Activate(Job::Write(v))),
			}
		}
		if full && !self.subs[n].closed {
			self.close(n);
		}
	}

	/// Returns whether it's done
	fn work(&mut self, job: Job) -> bool {
		let n = match job {
			Job::Write(v) => {
				self.now += 1;
				if let Some(gauge) = &mut self.gauge {
					gauge.value = v;
					gauge.changed = self.now;
				}
				return true;
			}
			Job::Sub(n) => n,
		};
		match self.subs[n].kind {
			Kind::Mail => {
				for (id, v, _) in self.mails.clone() {
					if id >= self.subs[n].cursor && !self.subs[n].closed {
						self.subs[n].cursor = id + 1;
						self.emit(n, Item::Sig(Sig::Next(v)));
					}
				}
				self.subs[n].closed
			}
			Kind::Keys(mode) => {
				let keys: Vec<V> = match mode {
					Mode::JustPressed => &self.just_pressed,
					Mode::JustReleased => &self.just_released,
					Mode::WhilePressed => &self.pressed,
				}
				.iter()
				.map(|k| *k as V)
				.collect();
				self.groups += 1;
				for _ in &keys {
					self.emit(n, Item::Of(self.groups, keys.clone()));
				}
				self.subs[n].closed
			}
			Kind::Gauge { added, changed } => {
				self.now += 1;
				let now = self.now;
				let sub = &mut self.subs[n];
				let (existed, looked) = (sub.existed, sub.looked);
				sub.existed = self.gauge.map(|g| g.generation);
				sub.looked = now;
				if let Some(gauge) = self.gauge {
					let emits = match existed {
						None => added,
						Some(generation) => {
							if generation != gauge.generation && added != changed && !sub.closed {
								self.unsure = true;
							}
							changed && gauge.changed > looked
						}
					};
					if emits {
						self.emit(n, Item::Sig(Sig::Next(gauge.value)));
					}
				}
				self.subs[n].closed
			}
			Kind::Knock(_) => {
				self.listen.push(n);
				true
			}
		}
	}

	fn pass(&mut self, when: When) {
		let mut ticked = BTreeSet::new();
		loop {
			let exec = self.execs.entry(when).or_default();
			let requests = std::mem::take(&mut exec.queue);
			let had = !requests.is_empty();
			for request in requests {
				match request {
					Req::Activate(job) => {
						exec.next += 1;
						exec.active.push((exec.next, job));
					}
					Req::Cancel(n) => exec.active.retain(|(_, job)| !matches!(job, Job::Sub(s) if *s == n)),
				}
			}
			let due: Vec<(u64, Job)> = exec.active.iter().filter(|(id, _)| !ticked.contains(id)).copied().collect();
			let idle = due.is_empty();
			for (id, job) in due {
				ticked.insert(id);
				if self.work(job) {
					self.execs.get_mut(&when).unwrap().active.retain(|a| a.0 != id);
				}
			}
			if idle && !had {
				break;
			}
		}
		for n in std::mem::take(&mut self.listen) {
			let Kind::Knock(entity) = self.subs[n].kind else { unreachable!() };
			if self.alive[entity] {
				self.subs[n].listening = true;
			} else {
				self.emit(n, Item::Sig(Sig::Complete));
			}
		}
	}

	fn act(&mut self, act: &Act) {
		self.now += 1;
		match act {
			Act::Subscribe { kind, when, limit, reactions } => {
				self.subs.push(MSub {
					kind: *kind,
					when: *when,
					limit: *limit,
					reactions: reactions.clone(),
					closed: false,
					log: Vec::new(),
					values: 0,
					handle: true,
					cursor: 0,
					existed: None,
					looked: 0,
					listening: false,
				});
				self.request(*when, Req::Activate(Job::Sub(self.subs.len() - 1)));
			}
			Act::Mail(v) => {
				self.mails.push((self.mail_count, *v, 0));
				self.mail_count += 1;
			}
			Act::Knock(entity, v) => {
				if self.alive[*entity] {
					let writes = self.writes();
					for n in self.listeners(*entity) {
						self.emit(n, Item::Sig(Sig::Next(*v)));
					}
					// In whichever order they observed it
					self.unsure |= self.writes() > writes + 1;
				}
			}
			Act::Despawn(entity) => {
				if self.alive[*entity] {
					self.alive[*entity] = false;
					for n in self.listeners(*entity) {
						self.emit(n, Item::Sig(Sig::Complete));
					}
				}
			}
			Act::Press(k) => {
				if self.pressed.insert(*k) {
					self.just_pressed.insert(*k);
				}
			}
			Act::Release(k) => {
				if self.pressed.remove(k) {
					self.just_released.insert(*k);
				}
			}
			Act::ClearKeys => {
				self.just_pressed.clear();
				self.just_released.clear();
			}
			Act::Insert(v) => {
				let generation = self.gauge.map_or(self.now, |g| g.generation);
				self.gauge = Some(MGauge { value: *v, changed: self.now, generation });
			}
			Act::Mutate(v) => {
				if let Some(gauge) = &mut self.gauge {
					gauge.value = *v;
					gauge.changed = self.now;
				}
			}
			Act::Peek => {}
			Act::Remove => self.gauge = None,
			Act::Write(v) => self.request(self.setup.writer, Req::Activate(Job::Write(*v))),
			Act::Unsubscribe(n) => {
				if let Some(n) = self.nth_handle(*n) {
					self.unsubscribe(n);
				}
			}
			Act::Drop(n) => {
				if let Some(n) = self.nth_handle(*n) {
					self.subs[n].handle = false;
					self.unsubscribe(n);
				}
			}
		}
	}

	fn writes(&self) -> usize {
		let queue = self.execs.get(&self.setup.writer).map(|exec| &exec.queue);
		queue.into_iter().flatten().filter(|request| matches!(request, Req::Activate(Job::Write(_)))).count()
	}

	fn listeners(&self, entity: usize) -> Vec<usize> {
		(0..self.subs.len()).filter(|n| self.subs[*n].listening && self.subs[*n].kind == Kind::Knock(entity)).collect()
	}

	fn nth_handle(&self, n: u32) -> Option<usize> {
		let handles: Vec<usize> = (0..self.subs.len()).filter(|s| self.subs[*s].handle).collect();
		(!handles.is_empty()).then(|| handles[n as usize % handles.len()])
	}

	fn point(&mut self, frame: u32, point: u32) {
		for act in self.setup.acts.get(&(frame, point)).into_iter().flatten() {
			self.act(act);
		}
	}

	fn frame(&mut self, frame: u32) {
		self.point(frame, 0);
		self.mails.iter_mut().for_each(|m| m.2 += 1);
		self.mails.retain(|m| m.2 < 2);
		self.point(frame, 1);
		self.pass(When::PreUpdate);
		self.point(frame, 2);
		self.pass(When::Update);
		self.point(frame, 3);
		self.pass(When::PostUpdate);
		self.point(frame, 4);
		self.pass(When::Last);
		self.point(frame, 5);
	}
}

/// Nothing says who of the observers of an event comes first
fn ordered(a: Kind, b: Kind) -> bool {
	!(matches!(a, Kind::Knock(_)) && a == b)
}

// ───────────────────────── the real thing

struct LiveSub {
	kind: Kind,
	handle: Option<ErasedSubscription>,
	seen: Seen,
}

#[derive(Default)]
struct LiveState {
	entities: Vec<Entity>,
	subs: Vec<LiveSub>,
	frame: u32,
	writer: Option<Arc<dyn Fn(V) + Send + Sync>>,
}

#[derive(Clone)]
struct Live {
	setup: Arc<Setup>,
	state: Arc<Mutex<LiveState>>,
}

impl Live {
	fn with<R>(&self, f: impl FnOnce(&mut LiveState) -> R) -> R {
		f(&mut self.state.lock().unwrap())
	}

	fn unsubscribe(&self, n: usize) {
		count("fault:unsubscribe");
		let handle = self.with(|s| s.subs[n].handle.take());
		if let Some(mut handle) = handle {
			handle.unsubscribe();
			check!(handle.is_closed(), "handle-open", "subscription {n} was unsubscribed, yet it's not closed");
			self.with(|s| s.subs[n].handle = Some(handle));
		}
	}

	fn nth_handle(&self, n: u32) -> Option<usize> {
		self.with(|s| {
			let handles: Vec<usize> = (0..s.subs.len()).filter(|n| s.subs[*n].handle.is_some()).collect();
			(!handles.is_empty()).then(|| handles[n as usize % handles.len()])
		})
	}

	fn react(&self, n: usize, reaction: Reaction) {
		count("fault:reentrant");
		ev!("reaction {reaction:?}");
		match reaction {
			Reaction::UnsubscribeSelf => self.unsubscribe(n),
			Reaction::Unsubscribe(other) => {
				let (other, fine) = self.with(|s| {
					let other = other as usize % s.subs.len();
					(other, ordered(s.subs[n].kind, s.subs[other].kind))
				});
				if fine {
					self.unsubscribe(other);
				}
			}
			Reaction::Write(v) => {
				let writer = self.with(|s| s.writer.clone());
				writer.unwrap()(v);
			}
		}
	}

	fn subscribe(&self, world: &mut Ecs, kind: Kind, when: When, limit: Option<u32>, reactions: BTreeMap<u32, Reaction>) {
		let n = self.with(|s| s.subs.len());
		let live = self.clone();
		let values = AtomicU32::new(0);
		let hook = Arc::new(move |sig: &Sig, _: usize| {
			if matches!(sig, Sig::Next(_)) {
				let nth = values.fetch_add(1, Ordering::Relaxed) + 1;
				if let Some(reaction) = reactions.get(&nth) {
					live.react(n, *reaction);
				}
			}
		}) as Hook;
		let (probe, seen) = Probe::new(n as u32, Some(hook));
		let probe = probe.with_limit(limit.map_or(usize::MAX, |l| l as usize));
		self.with(|s| s.subs.push(LiveSub { kind, handle: None, seen }));
		let scheduler = when.handle(world);
		let handle = match kind {
			Kind::Mail => ErasedSubscription::new(MessageObservable::<Mail>::new(scheduler).map(|m: Mail| m.0).map_never().subscribe(probe)),
			Kind::Knock(entity) => {
				let entity = self.with(|s| s.entities[entity]);
				ErasedSubscription::new(EventObservable::<Knock>::new(entity, scheduler).map(|k: Knock| k.value).map_never().subscribe(probe))
			}
			Kind::Keys(mode) => {
				let options = KeyboardObservableOptions {
					emit: match mode {
						Mode::JustPressed => KeyboardObservableEmit::JustPressed,
						Mode::JustReleased => KeyboardObservableEmit::JustReleased,
						Mode::WhilePressed => KeyboardObservableEmit::WhilePressed,
					},
				};
				let code = |key: KeyCode| KEYS.iter().position(|k| *k == key).unwrap() as V;
				ErasedSubscription::new(KeyboardObservable::new(options, scheduler).map(code).map_never().subscribe(probe))
			}
			Kind::Gauge { added, changed } => {
				let options = ResourceObservableOptions { trigger_on_is_added: added, trigger_on_is_changed: changed };
				ErasedSubscription::new(ResourceObservable::<Gauge, _, V>::new(|gauge: &Gauge| gauge.0, options, scheduler).map_never().subscribe(probe))
			}
		};
		self.with(|s| s.subs[n].handle = Some(handle));
	}

	fn act(&self, world: &mut Ecs, act: &Act) {
		ev!("act {act:?}");
		match act {
			Act::Subscribe { kind, when, limit, reactions } => self.subscribe(world, *kind, *when, *limit, reactions.clone()),
			Act::Mail(v) => {
				world.write_message(Mail(*v));
			}
			Act::Knock(entity, v) => {
				let entity = self.with(|s| s.entities[*entity]);
				if world.get_entity(entity).is_ok() {
					world.trigger(Knock { entity, value: *v });
				}
			}
			Act::Despawn(entity) => {
				count("fault:despawn");
				let entity = self.with(|s| s.entities[*entity]);
				world.commands().entity(entity).try_despawn();
			}
			Act::Press(k) => world.resource_mut::<ButtonInput<KeyCode>>().press(KEYS[*k]),
			Act::Release(k) => world.resource_mut::<ButtonInput<KeyCode>>().release(KEYS[*k]),
			Act::ClearKeys => world.resource_mut::<ButtonInput<KeyCode>>().clear(),
			Act::Insert(v) => world.insert_resource(Gauge(*v)),
			Act::Mutate(v) => {
				if let Some(mut gauge) = world.get_resource_mut::<Gauge>() {
					gauge.0 = *v;
				}
			}
			Act::Peek => {
				if let Some(gauge) = world.get_resource_mut::<Gauge>() {
					ev!("{:?}", gauge.0);
				}
			}
			Act::Remove => {
				count("fault:remove_resource");
				world.remove_resource::<Gauge>();
			}
			Act::Write(v) => {
				let writer = self.with(|s| s.writer.clone());
				writer.unwrap()(*v);
			}
			Act::Unsubscribe(n) => {
				if let Some(n) = self.nth_handle(*n) {
					self.unsubscribe(n);
				}
			}
			Act::Drop(n) => {
				if let Some(n) = self.nth_handle(*n) {
					count("fault:handle_dropped");
					let handle = self.with(|s| s.subs[n].handle.take());
					drop(handle);
				}
			}
		}
		world.flush();
	}

	fn point(&self, world: &mut Ecs, point: u32) {
		let frame = self.with(|s| s.frame);
		for act in self.setup.acts.get(&(frame, point)).into_iter().flatten() {
			self.act(world, act);
		}
	}
}

fn fits(log: &[Sig], expected: &[Item]) -> bool {
	let mut seen: BTreeSet<(u32, V)> = BTreeSet::new();
	log.len() == expected.len()
		&& log.iter().zip(expected).all(|(sig, item)| match item {
			Item::Sig(expected) => sig == expected,
			Item::Of(group, keys) => matches!(sig, Sig::Next(v) if keys.contains(v) && seen.insert((*group, *v))),
		})
}

fn compare(live: &Live, model: &Model, frame: u32) {
	let real = live.state.lock().unwrap();
	for (n, (sub, expected)) in real.subs.iter().zip(&model.subs).enumerate() {
		let log = sub.seen.log();
		check!(fits(&log, &expected.log), "signals", "frame {frame}: subscription {n} ({:?}) observed {log:?}, expected {:?}", sub.kind, expected.log);
		check!(
			sub.seen.teardowns() == expected.closed as u32,
			"teardown",
			"frame {frame}: subscription {n} ({:?}) is {}, but its destination was torn down {} times",
			sub.kind,
			if expected.closed { "closed" } else { "open" },
			sub.seen.teardowns()
		);
		if let Some(handle) = &sub.handle {
			check!(handle.is_closed() == expected.closed, "closed", "frame {frame}: subscription {n} ({:?}) says it's closed: {}", sub.kind, handle.is_closed());
		}
		if !log.is_empty() {
			count(match sub.kind {
				Kind::Mail => "probe:messages",
				Kind::Knock(_) => "probe:events",
				Kind::Keys(_) => "probe:keys",
				Kind::Gauge { .. } => "probe:resource",
			});
		}
	}
}

fn run() {
	let setup = Arc::new(Setup::draw());
	ev!("{} entities, resource: {:?}, written in {:?}", setup.entities, setup.gauge, setup.writer);
	let live = Live { setup: setup.clone(), state: Arc::default() };
	let script = live.clone();
	let mut app = stage(Arc::new(move |world, point| script.point(world, point)));
	app.add_plugins(RxPlugin);
	add_schedulers(&mut app);
	app.add_message::<Mail>();
	app.init_resource::<ButtonInput<KeyCode>>();
	if let Some(v) = setup.gauge {
		app.insert_resource(Gauge(v));
	}
	let world = app.world_mut();
	let destination = ResourceDestination::<V, Never, Gauge, _, RxBevyScheduler>::new(
		|mut gauge: bevy_ecs::world::Mut<Gauge>, notification| {
			if let ObserverNotification::Next(v) = notification {
				gauge.0 = v;
			}
		},
		setup.writer.handle(world),
	);
	let destination = Mutex::new(destination);
	live.with(|s| {
		s.writer = Some(Arc::new(move |v| {
			let mut destination = destination.lock().unwrap();
			destination.next(v);
		}));
		for _ in 0..setup.entities {
			s.entities.push(world.spawn_empty().id());
		}
	});
	let mut model = Model::new(&setup);
	let mut frame = 0;
	let mut go = |app: &mut App, model: &mut Model| {
		ev!("== frame {frame}");
		live.with(|s| s.frame = frame);
		app.world_mut().resource_mut::<Time<Virtual>>().advance_by(ms(10));
		sim_time(10);
		if step("a frame", || app.update()).is_none() || violated() {
			return false;
		}
		model.frame(frame);
		if !model.unsure {
			compare(&live, model, frame);
		}
		frame += 1;
		!violated() && !model.unsure
	};
	let mut fine = true;
	for _ in 0..setup.frames {
		fine = go(&mut app, &mut model);
		if !fine {
			break;
		}
	}
	if violated() {
		std::mem::forget(app);
		return;
	}
	if fine {
		for n in 0..model.subs.len() {
			if model.subs[n].handle {
				model.unsubscribe(n);
				if step("unsubscribe", || live.unsubscribe(n)).is_none() {
					return;
				}
			}
		}
		for _ in 0..3 {
			fine = go(&mut app, &mut model);
			if !fine {
				break;
			}
		}
	}
	if violated() {
		std::mem::forget(app);
		return;
	}
	if fine {
		for when in ALL_WHEN {
			check!(when.is_empty(app.world()), "work-left", "every subscription is over, but the executor of {when:?} still has work");
		}
		let world = app.world_mut();
		let observers = world.query::<&Observer>().iter(world).count();
		check!(observers == 0, "observers-left", "every subscription is over, but {observers} observers of events are left");
		count("probe:drained");
	} else {
		count("probe:unsure");
	}
	step("dropping the app", || drop(app));
	let state = std::mem::take(&mut *live.state.lock().unwrap());
	let seen: Vec<Seen> = state.subs.iter().map(|s| s.seen.clone()).collect();
	step("dropping what is left", || drop(state));
	for (n, seen) in seen.iter().enumerate() {
		seen.check_grammar("a source of the app");
		check!(seen.teardowns() == 1, "teardown-end", "the app is gone, the destination of subscription {n} was torn down {} times", seen.teardowns());
	}
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R22",
		worlds: vec![World { name: "sources", run, quick: 6_000, thorough: 300_000 }],
		rule: "after every frame what every observer saw is compared with a reference model of messages, keys, the resource, entity events and the \
			executors; at the end the executors have to be empty, no observer entity may be left, and everything has to be released exactly once",
		real: REAL_BEVY,
		stubs: STUB_BEVY,
		probes: &["probe:messages", "probe:events", "probe:keys", "probe:resource", "probe:drained", "fault:unsubscribe", "fault:reentrant", "fault:despawn"],
	});
}
