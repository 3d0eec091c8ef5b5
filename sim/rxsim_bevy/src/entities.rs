//! R20, R23, R24: subscriptions made through commands, which live on entities.
use bevy_ecs::entity::ContainsEntity;
use crate::stage::*;
use bevy_ecs::query::{With, Without};

type Publish = PublishSubject<V, E>;
type SubjectOf = SubjectComponent<Publish>;
type ColdOf = ObservableComponent<Dyn>;

#[derive(Clone, Debug)]
enum Feed {
	/// An entity with a subject
	Subject,
	/// An entity with an observable: some values, and then either an end or
	/// whatever its subject emits
	Cold { prefix: u32, end: Option<Sig> },
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Target {
	/// Observes directly
	Probe { limit: Option<u32> },
	/// Observes the events triggered on it
	Entity { dest: u32, when: When },
	/// An entity with a subject
	Subject { obs: u32, when: When },
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
	Commands,
	SubscribeDestination,
	/// `EntityCommands::subscribe` or `subscribes_to_observable_entity`
	Entities { reverse: bool },
	AsObservable { when: When },
	Query,
	WithObservable { reverse: bool },
	/// By a work of an executor
	Proxy { when: When },
}

#[derive(Clone, Debug)]
enum Act {
	Subscribe { obs: u32, target: Target, via: Via },
	Push { subject: u32, sig: Sig },
	Signal { obs: u32, sig: Sig },
	DespawnSubscription { n: u32, alias: bool },
	Unsubscribe(u32),
	DropHandle(u32),
	DespawnDestination(u32),
	DespawnObservable(u32),
	Remove(u32),
	Insert(u32),
	Satellite { kind: u32, n: u32 },
	Exit,
}

struct Setup {
	feeds: Vec<Feed>,
	/// Whether they are there from the start
	present: Vec<bool>,
	dests: u32,
	/// Per frame and point: all of them in one queue of commands?
	acts: BTreeMap<(u32, u32), (bool, Vec<Act>)>,
	/// What the nth signal of a destination leads to
	hooks: BTreeMap<(u32, usize), Act>,
	frames: u32,
	/// With the plugin that cleans up after unfinished subscriptions
	base_plugin: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Lifecycle,
	Retries,
	Exit,
}

fn draw_sig(values: &mut V) -> Sig {
	match weighted(&[12, 1, 1]) {
		0 => {
			*values += 1;
			Sig::Next(*values)
		}
		1 => Sig::Complete,
		_ => Sig::Error(draw(9) as E),
	}
}

fn draw_when() -> When {
	pick(&[When::Update, When::Update, When::PreUpdate, When::PostUpdate])
}

impl Setup {
	fn draw(focus: Focus) -> Setup {
		let n_obs = draw_range(1, 3);
		let feeds: Vec<Feed> = (0..n_obs)
			.map(|_| {
				if chance(2, 3) {
					Feed::Subject
				} else {
					Feed::Cold {
						prefix: draw(4),
						end: match weighted(&[4, 2, 1, 1]) {
							0 => None,
							1 => Some(Sig::Complete),
							2 => Some(Sig::Error(3)),
							_ => Some(Sig::Unsub),
						},
					}
				}
			})
			.collect();
		let absent = if focus == Focus::Retries { 2 } else { 8 };
		let mut setup = Setup {
			present: feeds.iter().map(|_| !chance(1, absent)).collect(),
			dests: draw_range(1, 3),
			feeds,
			acts: BTreeMap::new(),
			hooks: BTreeMap::new(),
			frames: draw_range(3, if focus == Focus::Retries { 7 } else { 6 }),
			base_plugin: focus != Focus::Retries || chance(1, 2),
		};
		let mut values = 0;
		let busy = draw_range(1, 3);
		for frame in 0..setup.frames {
			for point in 0..POINTS {
				let n = draw(busy + 2).min(3);
				if n == 0 {
					continue;
				}
				let batch = chance(1, 3);
				let acts = (0..n).map(|_| setup.draw_act(focus, &mut values)).collect();
				setup.acts.insert((frame, point), (batch, acts));
			}
		}
		for dest in 0..setup.dests {
			for nth in 1..=6 {
				if chance(1, 8) {
					let act = setup.draw_act(focus, &mut values);
					setup.hooks.insert((dest, nth), act);
				}
			}
		}
		if focus == Focus::Exit {
			let at = (setup.frames - 1, draw(POINTS - 1));
			let acts = setup.acts.entry(at).or_insert((false, Vec::new()));
			let place = draw(acts.1.len() as u32 + 1) as usize;
			acts.1.insert(place, Act::Exit);
		}
		setup
	}

	fn draw_act(&self, focus: Focus, values: &mut V) -> Act {
		let obs = draw(self.feeds.len() as u32);
		let weights: &[u32] = match focus {
			Focus::Retries => &[10, 6, 3, 2, 2, 1, 1, 1, 3, 8, 0],
			_ => &[10, 14, 8, 3, 3, 1, 1, 1, 2, 3, 3],
		};
		match weighted(weights) {
			0 => {
				let later: Vec<u32> = (obs + 1..self.feeds.len() as u32).filter(|o| matches!(self.feeds[*o as usize], Feed::Subject)).collect();
				let target = match weighted(&[4, 3, 2]) {
					0 => Target::Probe { limit: chance(1, 4).then(|| draw_range(1, 3)) },
					2 if !later.is_empty() => Target::Subject { obs: pick(&later), when: draw_when() },
					_ => Target::Entity { dest: draw(self.dests), when: draw_when() },
				};
				let via = match weighted(&[3, 2, 3, 3, 2, 3, 3]) {
					0 => Via::Commands,
					1 => Via::SubscribeDestination,
					2 if !matches!(target, Target::Probe { .. }) => Via::Entities { reverse: chance(1, 2) },
					2 | 3 => Via::AsObservable { when: When::draw() },
					4 => Via::Query,
					6 => Via::Proxy { when: draw_when() },
					_ => Via::WithObservable { reverse: chance(1, 2) },
				};
				Act::Subscribe { obs, target, via }
			}
			1 => Act::Push { subject: draw(16), sig: draw_sig(values) },
			2 => Act::Signal { obs, sig: draw_sig(values) },
			3 => Act::DespawnSubscription { n: draw(16), alias: chance(1, 2) },
			4 => Act::Unsubscribe(draw(16)),
			5 => Act::DropHandle(draw(16)),
			6 => Act::DespawnDestination(draw(self.dests)),
			7 => Act::DespawnObservable(obs),
			8 => Act::Remove(obs),
			9 => Act::Insert(obs),
			_ => Act::Satellite { kind: draw(3), n: draw(16) },
		}
	}
}

// ───────────────────────── the model

#[derive(Clone, Copy, Debug, PartialEq)]
enum Phase {
	/// The command wasn't carried out yet
	Pending,
	/// Was
	Attached,
	/// And never will be
	Missed,
}

#[derive(Debug)]
struct MSub {
	obs: usize,
	target: Target,
	phase: Phase,
	/// The app exits while it waits: the order of what happens in `Last` is not specified
	unsure: bool,
	tries: u32,
	/// Its entity
	alive: bool,
	closed: bool,
	/// In which frame, and whether that frame still had a `Last` to come
	closed_in: (u32, bool),
	log: Vec<Sig>,
	values: u32,
	subject: Option<usize>,
	/// Carries a component of its own
	component: bool,
	/// Subscribed by an executor, once it got to it
	proxy: Option<When>,
	spawned: bool,
	/// Whoever subscribed still has something to unsubscribe it with
	handle: bool,
}

#[derive(Default)]
struct MSubject {
	subs: Vec<usize>,
	over: Option<Sig>,
}

struct MObs {
	alive: bool,
	present: bool,
	subject: usize,
}

struct MDest {
	alive: bool,
	log: Vec<Sig>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
	Sub(usize),
	Dest(usize),
	Obs(usize),
}

struct Model<'a> {
	setup: &'a Setup,
	obs: Vec<MObs>,
	subjects: Vec<MSubject>,
	dests: Vec<MDest>,
	subs: Vec<MSub>,
	/// And whether another order would have been fine, too
	queues: BTreeMap<When, Vec<(Job, bool)>>,
	/// What is going on is subject to such an order
	tainted: bool,
	/// An order which nothing promises made a difference
	unsure: bool,
	retries: Vec<usize>,
	satellites: Vec<(Place, bool)>,
	frame: u32,
	last_passed: bool,
	exit: bool,
	exited: bool,
}

#[derive(Clone, Debug)]
enum Job {
	Notify(Target, Sig),
	Proxy(usize),
}

enum Later {
	Attempt(usize),
	Do(Act),
	InsertWithComponent(usize),
	DespawnSub(usize),
	Satellite(Option<Place>),
}

const TRIES: u32 = SUBSCRIBE_COMMAND_MAX_RETRIES as u32;

impl<'a> Model<'a> {
	fn new(setup: &'a Setup) -> Self {
		let mut model = Model {
			setup,
			obs: Vec::new(),
			subjects: Vec::new(),
			dests: (0..setup.dests).map(|_| MDest { alive: true, log: Vec::new() }).collect(),
			subs: Vec::new(),
			queues: BTreeMap::new(),
			tainted: false,
			unsure: false,
			retries: Vec::new(),
			satellites: Vec::new(),
			frame: 0,
			last_passed: false,
			exit: false,
			exited: false,
		};
		for present in &setup.present {
			model.subjects.push(MSubject::default());
			model.obs.push(MObs { alive: true, present: *present, subject: model.subjects.len() - 1 });
		}
		model
	}

	fn close(&mut self, n: usize) {
		let sub = &mut self.subs[n];
		if sub.closed {
			return;
		}
		sub.closed = true;
		sub.closed_in = (self.frame, !self.last_passed);
		if let Some(queue) = sub.proxy.and_then(|when| self.queues.get_mut(&when)) {
			queue.retain(|job| !matches!(job.0, Job::Proxy(p) if p == n));
		}
		if let Some(subject) = sub.subject {
			self.subjects[subject].subs.retain(|s| *s != n);
		}
	}

	fn unsubscribe(&mut self, n: usize) {
		if !self.subs[n].closed {
			if matches!(self.subs[n].target, Target::Probe { .. }) {
				self.subs[n].log.push(Sig::Unsub);
			}
			self.close(n);
		}
	}

	fn deliver(&mut self, n: usize, sig: Sig) {
		if self.subs[n].closed {
			return;
		}
		let mut full = false;
		match self.subs[n].target {
			Target::Probe { limit } => {
				self.subs[n].log.push(sig.clone());
				if matches!(sig, Sig::Next(_)) {
					self.subs[n].values += 1;
					full = Some(self.subs[n].values) == limit;
				}
			}
			target @ (Target::Entity { when, .. } | Target::Subject { when, .. }) => {
				let tainted = self.tainted;
				self.queues.entry(when).or_default().push((Job::Notify(target, sig.clone()), tainted));
			}
		}
		if full || sig.is_terminal() {
			self.close(n);
		}
	}

	fn push(&mut self, subject: usize, sig: Sig) {
		if self.subjects[subject].over.is_some() {
			return;
		}
		if sig != Sig::Unsub {
			let before: BTreeMap<When, usize> = self.queues.iter().map(|(when, queue)| (*when, queue.len())).collect();
			for n in self.subjects[subject].subs.clone() {
				self.deliver(n, sig.clone());
			}
			// The subscribers of a subject have no order
			for (when, queue) in &mut self.queues {
				let before = before.get(when).copied().unwrap_or(0);
				if queue.len() > before + 1 {
					queue[before..].iter_mut().for_each(|entry| entry.1 = true);
				}
			}
		} else {
			for n in self.subjects[subject].subs.clone() {
				self.unsubscribe(n);
			}
		}
		if sig.is_terminal() || sig == Sig::Unsub {
			self.subjects[subject].over = Some(sig);
		}
	}

	/// The observable is subscribed to
	fn subscribe(&mut self, n: usize) {
		let obs = self.subs[n].obs;
		self.subs[n].phase = Phase::Attached;
		let subject = self.obs[obs].subject;
		if let Feed::Cold { prefix, end } = &self.setup.feeds[obs] {
			for v in 0..*prefix {
				self.deliver(n, Sig::Next(prefix_value(obs, v)));
			}
			match end {
				None => {}
				Some(Sig::Unsub) => self.unsubscribe(n),
				Some(end) => self.deliver(n, end.clone()),
			}
		}
		if self.subs[n].closed {
			return;
		}
		match self.subjects[subject].over.clone() {
			None => {
				self.subs[n].subject = Some(subject);
				self.subjects[subject].subs.push(n);
			}
			Some(Sig::Unsub) => self.unsubscribe(n),
			Some(end) => self.deliver(n, end),
		}
	}

	fn attempt(&mut self, n: usize) {
		let obs = self.subs[n].obs;
		if !self.subs[n].alive {
			self.subs[n].phase = Phase::Missed;
			self.unsubscribe(n);
		} else if self.obs[obs].present {
			self.subscribe(n);
			self.subs[n].component = true;
		} else if self.subs[n].tries > 0 {
			self.subs[n].tries -= 1;
			self.retries.push(n);
		} else {
			self.subs[n].phase = Phase::Missed;
			self.unsubscribe(n);
		}
	}

	fn retry(&mut self) {
		for n in std::mem::take(&mut self.retries) {
			self.attempt(n);
		}
	}

	fn torn(&mut self, place: Place) {
		for satellite in self.satellites.iter_mut().filter(|s| s.0 == place) {
			satellite.1 = true;
		}
	}

	fn issue(&mut self, act: &Act, batch: bool) -> Option<Later> {
		match act {
			Act::Subscribe { obs, target, via } => {
				let n = self.subs.len();
				let via = effective(*via, batch);
				if via == Via::Query && !self.obs[*obs as usize].present {
					return None;
				}
				self.subs.push(MSub {
					obs: *obs as usize,
					target: *target,
					phase: Phase::Pending,
					unsure: false,
					tries: TRIES,
					alive: true,
					closed: false,
					closed_in: (0, false),
					log: Vec::new(),
					values: 0,
					subject: None,
					component: false,
					proxy: match via {
						Via::Proxy { when } => Some(when),
						_ => None,
					},
					spawned: !matches!(via, Via::Proxy { .. }),
					handle: matches!(via, Via::AsObservable { .. } | Via::WithObservable { .. } | Via::Proxy { .. }),
				});
				if let Via::WithObservable { .. } = via {
					self.subscribe(n);
					Some(Later::InsertWithComponent(n))
				} else if let Via::Proxy { when } = via {
					self.queues.entry(when).or_default().push((Job::Proxy(n), false));
					None
				} else {
					Some(Later::Attempt(n))
				}
			}
			Act::Push { subject, sig } => {
				self.push(*subject as usize % self.subjects.len(), sig.clone());
				None
			}
			Act::Unsubscribe(n) => {
				if let Some(n) = self.nth_handle(*n) {
					self.unsubscribe(n);
				}
				None
			}
			Act::DropHandle(n) => {
				if let Some(n) = self.nth_handle(*n) {
					self.subs[n].handle = false;
					if self.subs[n].proxy.is_some() {
						self.unsubscribe(n);
					}
				}
				None
			}
			Act::DespawnSubscription { n, .. } => {
				if self.subs.is_empty() {
					return None;
				}
				let n = *n as usize % self.subs.len();
				self.subs[n].proxy.is_none().then_some(Later::DespawnSub(n))
			}
			Act::Satellite { kind, n } => Some(Later::Satellite(self.place(*kind, *n as usize))),
			other => Some(Later::Do(other.clone())),
		}
	}

	fn place(&self, kind: u32, n: usize) -> Option<Place> {
		match kind {
			0 if !self.subs.is_empty() => self.subs[n % self.subs.len()].proxy.is_none().then_some(Place::Sub(n % self.subs.len())),
			0 | 1 => Some(Place::Dest(n % self.dests.len())),
			_ => Some(Place::Obs(n % self.obs.len())),
		}
	}

	fn nth_handle(&self, n: u32) -> Option<usize> {
		let handles: Vec<usize> = (0..self.subs.len()).filter(|s| self.subs[*s].handle).collect();
		(!handles.is_empty()).then(|| handles[n as usize % handles.len()])
	}

	fn remove(&mut self, o: usize) {
		if self.obs[o].present {
			self.obs[o].present = false;
			if matches!(self.setup.feeds[o], Feed::Subject) {
				self.push(self.obs[o].subject, Sig::Unsub);
			}
		}
	}

	fn signal(&mut self, o: usize, sig: Sig) {
		if self.obs[o].present && matches!(self.setup.feeds[o], Feed::Subject) {
			self.push(self.obs[o].subject, sig);
		}
	}

	fn act(&mut self, act: &Act) {
		if let Some(later) = self.issue(act, false) {
			self.later(later);
		}
	}

	fn point(&mut self, point: u32) {
		let setup = self.setup;
		let Some((batch, acts)) = setup.acts.get(&(self.frame, point)) else { return };
		if *batch {
			let laters: Vec<Later> = acts.iter().filter_map(|act| self.issue(act, true)).collect();
			for later in laters {
				self.later(later);
			}
		} else {
			for act in acts {
				self.act(act);
			}
		}
	}

	fn tick(&mut self, when: When) {
		for (job, tainted) in self.queues.remove(&when).unwrap_or_default() {
			self.tainted = tainted;
			let (target, sig) = match job {
				Job::Notify(target, sig) => (target, sig),
				Job::Proxy(n) => {
					self.subs[n].spawned = true;
					self.attempt(n);
					continue;
				}
			};
			match target {
				Target::Entity { dest, .. } => {
					let d = dest as usize;
					if self.dests[d].alive {
						self.dests[d].log.push(sig);
						let setup = self.setup;
						if let Some(act) = setup.hooks.get(&(dest, self.dests[d].log.len())).filter(|_| self.frame < setup.frames) {
							self.unsure |= tainted;
							self.act(act);
						}
					}
				}
				Target::Subject { obs, .. } => self.signal(obs as usize, sig),
				Target::Probe { .. } => unreachable!(),
			}
		}
		self.tainted = false;
	}

	fn gone(&mut self, n: usize) {
		if self.subs[n].alive {
			self.subs[n].alive = false;
			self.torn(Place::Sub(n));
		}
	}

	fn last(&mut self) {
		if self.setup.base_plugin {
			self.retry();
			for n in 0..self.subs.len() {
				if self.subs[n].phase != Phase::Attached && self.subs[n].spawned {
					self.gone(n);
				}
			}
			if self.exit {
				for sub in &mut self.subs {
					sub.unsure = sub.phase == Phase::Pending;
				}
				for n in 0..self.subs.len() {
					if self.subs[n].component {
						self.unsubscribe(n);
					}
				}
				self.satellites.iter_mut().for_each(|s| s.1 = true);
				self.exited = true;
			}
		}
		for n in 0..self.subs.len() {
			if self.subs[n].closed && self.subs[n].component {
				self.gone(n);
			}
		}
		self.last_passed = true;
	}

	fn frame(&mut self) {
		self.last_passed = false;
		self.point(0);
		self.retry();
		self.point(1);
		self.tick(When::PreUpdate);
		self.point(2);
		self.tick(When::Update);
		self.point(3);
		self.tick(When::PostUpdate);
		self.point(4);
		self.last();
		self.point(5);
	}

	fn later(&mut self, later: Later) {
		match later {
			Later::Attempt(n) => self.attempt(n),
			Later::InsertWithComponent(n) => self.subs[n].component = true,
			Later::DespawnSub(n) => {
				if self.subs[n].alive {
					self.subs[n].alive = false;
					if self.subs[n].component {
						self.unsubscribe(n);
					}
					self.torn(Place::Sub(n));
				}
			}
			Later::Satellite(place) => {
				let Some(place) = place else { return };
				let gone = match place {
					Place::Sub(n) => !self.subs[n].alive,
					Place::Dest(n) => !self.dests[n].alive,
					Place::Obs(n) => !self.obs[n].alive,
				};
				self.satellites.push((place, gone));
			}
			Later::Do(Act::Signal { obs, sig }) => self.signal(obs as usize, sig),
			Later::Do(Act::DespawnDestination(d)) => {
				if self.dests[d as usize].alive {
					self.dests[d as usize].alive = false;
					self.torn(Place::Dest(d as usize));
				}
			}
			Later::Do(Act::DespawnObservable(o)) => {
				let o = o as usize;
				if self.obs[o].alive {
					self.remove(o);
					self.obs[o].alive = false;
					self.torn(Place::Obs(o));
				}
			}
			Later::Do(Act::Remove(o)) => self.remove(o as usize),
			Later::Do(Act::Insert(o)) => {
				let o = o as usize;
				self.subjects.push(MSubject::default());
				if self.obs[o].alive {
					self.obs[o].present = true;
					self.obs[o].subject = self.subjects.len() - 1;
				}
			}
			Later::Do(Act::Exit) => self.exit = true,
			Later::Do(_) => unreachable!(),
		}
	}
}

fn prefix_value(obs: usize, v: u32) -> V {
	-((obs as V + 1) * 100 + v as V)
}

fn effective(via: Via, batch: bool) -> Via {
	if batch && via == Via::Query { Via::Commands } else { via }
}

// ───────────────────────── the real thing

struct LiveSub {
	/// Nobody is told about the one of a proxy
	entity: Option<Entity>,
	handle: Option<Handed>,
	seen: Option<Seen>,
}

enum Handed {
	Entity(EntitySubscription),
	Proxy(ErasedSubscription),
}

impl Handed {
	fn unsubscribe(&mut self) {
		match self {
			Handed::Entity(handle) => handle.unsubscribe(),
			Handed::Proxy(handle) => handle.unsubscribe(),
		}
	}
	fn is_closed(&self) -> bool {
		match self {
			Handed::Entity(handle) => handle.is_closed(),
			Handed::Proxy(handle) => handle.is_closed(),
		}
	}
}

#[derive(Default)]
struct LiveState {
	obs: Vec<Entity>,
	/// The last one of every observable
	current: Vec<usize>,
	subjects: Vec<Publish>,
	dests: Vec<(Entity, Vec<Sig>)>,
	subs: Vec<LiveSub>,
	satellites: Vec<Track>,
	frame: u32,
}

#[derive(Clone)]
struct Live {
	setup: Arc<Setup>,
	state: Arc<Mutex<LiveState>>,
}

fn sig_of(notification: &ObserverNotification<V, E>) -> Sig {
	match notification {
		ObserverNotification::Next(v) => Sig::Next(*v),
		ObserverNotification::Error(e) => Sig::Error(*e),
		ObserverNotification::Complete => Sig::Complete,
	}
}

fn signal_of(sig: &Sig, entity: Entity) -> RxSignal<V, E> {
	match sig {
		Sig::Next(v) => RxSignal::new_next(*v, entity),
		Sig::Error(e) => RxSignal::new_error(*e, entity),
		_ => RxSignal::new_complete(entity),
	}
}

impl Live {
	fn with<R>(&self, f: impl FnOnce(&mut LiveState) -> R) -> R {
		f(&mut self.state.lock().unwrap())
	}

	fn cold(&self, obs: usize, subject: Publish) -> Dyn {
		let Feed::Cold { prefix, end } = self.setup.feeds[obs].clone() else { unreachable!() };
		Dyn::custom(move |destination| {
			let mut shared = SharedSubscriber::new(destination);
			for v in 0..prefix {
				shared.next(prefix_value(obs, v));
			}
			match &end {
				None => return ErasedSubscription::new(subject.clone().subscribe(shared)),
				Some(Sig::Complete) => shared.complete(),
				Some(Sig::Error(e)) => shared.error(*e),
				Some(_) => shared.unsubscribe(),
			}
			ErasedSubscription::new(shared)
		})
	}

	/// Makes the component anew
	fn insert(&self, world: &mut Ecs, obs: usize) {
		let (entity, subject) = self.with(|s| {
			s.subjects.push(Publish::default());
			if world.get_entity(s.obs[obs]).is_ok() {
				s.current[obs] = s.subjects.len() - 1;
			}
			(s.obs[obs], s.subjects.last().unwrap().clone())
		});
		if let Ok(mut entity) = world.get_entity_mut(entity) {
			match self.setup.feeds[obs] {
				Feed::Subject => entity.insert(SubjectOf::new(subject)),
				Feed::Cold { .. } => entity.insert(ColdOf::new(self.cold(obs, subject))),
			};
		}
	}

	fn start(&self, world: &mut Ecs) {
		for obs in 0..self.setup.feeds.len() {
			let entity = world.spawn_empty().id();
			self.with(|s| {
				s.obs.push(entity);
				s.current.push(0);
			});
			if self.setup.present[obs] {
				self.insert(world, obs);
			} else {
				self.with(|s| {
					s.subjects.push(Publish::default());
					s.current[obs] = s.subjects.len() - 1;
				});
			}
		}
		for dest in 0..self.setup.dests {
			let live = self.clone();
			let entity = world
				.spawn_empty()
				.observe(move |on: On<RxSignal<V, E>>, mut commands: Commands| {
					let sig = sig_of(on.event().signal());
					ev!("entity {dest} <- {sig:?}");
					let (nth, frame) = live.with(|s| {
						s.dests[dest as usize].1.push(sig);
						(s.dests[dest as usize].1.len(), s.frame)
					});
					if frame < live.setup.frames && live.setup.hooks.contains_key(&(dest, nth)) {
						let live = live.clone();
						count("fault:reentrant");
						commands.queue(move |world: &mut Ecs| live.act(world, &live.setup.hooks[&(dest, nth)], false));
					}
				})
				.id();
			self.with(|s| s.dests.push((entity, Vec::new())));
		}
		world.flush();
	}

	fn destination(&self, target: Target, world: &mut Ecs) -> (ErasedSubscriber<V, E>, Option<Seen>) {
		match target {
			Target::Probe { limit } => {
				let name = self.with(|s| s.subs.len()) as u32;
				let (probe, seen) = Probe::new(name, None);
				let probe = probe.with_limit(limit.map_or(usize::MAX, |l| l as usize));
				(ErasedSubscriber::new(probe), Some(seen))
			}
			Target::Entity { when, .. } | Target::Subject { when, .. } => {
				let handle = when.handle(world);
				(ErasedSubscriber::new(EntityDestination::<V, E>::new(self.entity_of(target), handle).upgrade()), None)
			}
		}
	}

	fn entity_of(&self, target: Target) -> Entity {
		self.with(|s| match target {
			Target::Entity { dest, .. } => s.dests[dest as usize].0,
			Target::Subject { obs, .. } => s.obs[obs as usize],
			Target::Probe { .. } => unreachable!(),
		})
	}

	fn nth_handle(&self, n: u32) -> Option<usize> {
		self.with(|s| {
			let handles: Vec<usize> = (0..s.subs.len()).filter(|n| s.subs[*n].handle.is_some()).collect();
			(!handles.is_empty()).then(|| handles[n as usize % handles.len()])
		})
	}

	fn act(&self, world: &mut Ecs, act: &Act, batch: bool) {
		ev!("act {act:?}");
		match act {
			Act::Subscribe { obs, target, via } => self.subscribe(world, *obs as usize, *target, effective(*via, batch)),
			Act::Push { subject, sig } => {
				let mut subject = self.with(|s| s.subjects[*subject as usize % s.subjects.len()].clone());
				match sig {
					Sig::Next(v) => subject.next(*v),
					Sig::Error(e) => subject.error(*e),
					_ => subject.complete(),
				}
			}
			Act::Signal { obs, sig } => {
				let entity = self.with(|s| s.obs[*obs as usize]);
				let signal = signal_of(sig, entity);
				world.commands().queue(move |world: &mut Ecs| {
					if world.get_entity(entity).is_ok() {
						world.trigger(signal);
					}
				});
			}
			Act::DespawnSubscription { n, alias } => {
				if let Some(entity) = self.with(|s| if s.subs.is_empty() { None } else { s.subs[*n as usize % s.subs.len()].entity }) {
					count("fault:despawn_subscription");
					if *alias {
						world.commands().unsubscribe(entity);
					} else {
						world.commands().entity(entity).try_despawn();
					}
				}
			}
			Act::Unsubscribe(n) => {
				if let Some(n) = self.nth_handle(*n) {
					count("fault:unsubscribe");
					let mut handle = self.with(|s| s.subs[n].handle.take()).unwrap();
					handle.unsubscribe();
					check!(handle.is_closed(), "handle-open", "subscription {n} was unsubscribed, yet it's not closed");
					self.with(|s| s.subs[n].handle = Some(handle));
				}
			}
			Act::DropHandle(n) => {
				if let Some(n) = self.nth_handle(*n) {
					count("fault:handle_dropped");
					let handle = self.with(|s| s.subs[n].handle.take());
					drop(handle);
				}
			}
			Act::DespawnDestination(d) => {
				count("fault:despawn_destination");
				let entity = self.with(|s| s.dests[*d as usize].0);
				world.commands().entity(entity).try_despawn();
			}
			Act::DespawnObservable(o) => {
				count("fault:despawn_observable");
				let entity = self.with(|s| s.obs[*o as usize]);
				world.commands().entity(entity).try_despawn();
			}
			Act::Remove(o) => {
				count("fault:remove_component");
				let entity = self.with(|s| s.obs[*o as usize]);
				match self.setup.feeds[*o as usize] {
					Feed::Subject => world.commands().entity(entity).try_remove::<SubjectOf>(),
					Feed::Cold { .. } => world.commands().entity(entity).try_remove::<ColdOf>(),
				};
			}
			Act::Insert(o) => {
				let live = self.clone();
				let o = *o as usize;
				world.commands().queue(move |world: &mut Ecs| live.insert(world, o));
			}
			Act::Satellite { kind, n } => {
				let n = *n as usize;
				let (entity, track) = self.with(|s| {
					let entity = match kind {
						0 if !s.subs.is_empty() => s.subs[n % s.subs.len()].entity,
						0 | 1 => Some(s.dests[n % s.dests.len()].0),
						_ => Some(s.obs[n % s.obs.len()]),
					};
					let track = Track::new(1000 + n as u32);
					(entity, track)
				});
				let live = self.clone();
				let Some(entity) = entity else { return };
				world.commands().queue(move |world: &mut Ecs| {
					live.with(|s| s.satellites.push(track.clone()));
					world.spawn(SubscriptionSatellite::new_with_teardown(entity, Teardown::new(track.acquire())));
				});
			}
			Act::Exit => {
				count("fault:app_exit");
				world.commands().queue(|world: &mut Ecs| {
					world.write_message(AppExit::Success);
				});
			}
		}
		if !batch {
			world.flush();
		}
	}

	fn subscribe(&self, world: &mut Ecs, obs: usize, target: Target, via: Via) {
		let (destination, seen) = self.destination(target, world);
		let observable = self.with(|s| s.obs[obs]);
		let mut handle = None;
		let entity = match via {
			Via::Proxy { when } => {
				let scheduler = when.handle(world);
				let mut proxy = if chance(1, 2) {
					ProxyObservable::<V, E>::new(observable, scheduler)
				} else {
					match world.commands().get_entity(observable) {
						Ok(mut entity) => entity.as_proxy_observable::<V, E>(scheduler),
						Err(_) => ProxyObservable::<V, E>::new(observable, scheduler),
					}
				};
				handle = Some(Handed::Proxy(ErasedSubscription::new(proxy.subscribe(destination))));
				self.with(|s| s.subs.push(LiveSub { entity: None, handle, seen }));
				return;
			}
			Via::Commands => world.commands().subscribe(observable, destination),
			Via::SubscribeDestination => world.commands().entity(observable).subscribe_destination(destination),
			Via::Entities { reverse } => {
				let (Target::Entity { when, .. } | Target::Subject { when, .. }) = target else { unreachable!() };
				let scheduler = when.handle(world);
				let entity = self.entity_of(target);
				let mut commands = world.commands();
				if reverse {
					commands.entity(entity).subscribes_to_observable_entity::<V, E>(observable, scheduler)
				} else {
					commands.entity(observable).subscribe::<V, E>(entity, scheduler)
				}
			}
			Via::AsObservable { when } => {
				let scheduler = when.handle(world);
				let subscription = world.commands().entity(observable).as_observable::<V, E>(scheduler).subscribe(destination);
				let entity = subscription.entity();
				handle = Some(Handed::Entity(subscription));
				entity
			}
			Via::Query => {
				let mut state = SystemState::<ObservableQuery<V, E>>::new(world);
				let result = state.get_mut(world).try_subscribe_to(observable, destination);
				state.apply(world);
				match result {
					Ok(entity) => entity,
					Err(_) => return,
				}
			}
			Via::WithObservable { reverse } => {
				let scheduler = When::Last.handle(world);
				let subject = self.with(|s| s.subjects[s.current[obs]].clone());
				let subscription = match (&self.setup.feeds[obs], reverse) {
					(Feed::Subject, false) => world.commands().with_observable(subject, scheduler).subscribe(destination),
					(Feed::Subject, true) => subject.with_commands(world.commands(), scheduler).subscribe(destination),
					(_, false) => world.commands().with_observable(self.cold(obs, subject), scheduler).subscribe(destination),
					(_, true) => self.cold(obs, subject).with_commands(world.commands(), scheduler).subscribe(destination),
				};
				let entity = subscription.entity();
				handle = Some(Handed::Entity(subscription));
				entity
			}
		};
		self.with(|s| s.subs.push(LiveSub { entity: Some(entity), handle, seen }));
	}

	fn point(&self, world: &mut Ecs, point: u32) {
		let frame = self.with(|s| s.frame);
		let Some((batch, acts)) = self.setup.acts.get(&(frame, point)) else { return };
		for act in acts {
			self.act(world, act, *batch);
		}
		world.flush();
	}
}

fn compare(live: &Live, model: &Model, app: &App) {
	let real = live.state.lock().unwrap();
	let frame = model.frame;
	check!(real.subs.len() == model.subs.len(), "subscribed", "frame {frame}: {} subscriptions, expected {}", real.subs.len(), model.subs.len());
	for (n, (sub, expected)) in real.subs.iter().zip(&model.subs).enumerate() {
		if expected.unsure {
			continue;
		}
		if let Some(seen) = &sub.seen {
			check!(seen.log() == expected.log, "signals", "frame {frame}: subscription {n} observed {:?}, expected {:?}", seen.log(), expected.log);
			check!(
				seen.teardowns() == expected.closed as u32,
				"teardown",
				"frame {frame}: subscription {n} is {}, but its destination was torn down {} times",
				if expected.closed { "closed" } else { "open" },
				seen.teardowns()
			);
		}
		let Some(entity) = sub.entity else {
			count("probe:proxies");
			continue;
		};
		let exists = app.world().get_entity(entity).is_ok();
		if expected.alive && !expected.closed {
			check!(exists, "entity-missing", "frame {frame}: subscription {n} is open ({:?}), but its entity {} is gone", expected.phase, entity);
		}
		let before_last = expected.component && expected.closed_in.1;
		if !expected.alive && (expected.phase != Phase::Missed || model.setup.base_plugin)
			|| expected.closed && expected.component && (expected.closed_in.0 < frame || before_last)
		{
			check!(!exists || model.exited, "entity-left", "frame {frame}: subscription {n} is over ({expected:?}), but its entity {} is still there", entity);
		}
		if exists && expected.component && !expected.closed {
			let closed = app.world().get::<SubscriptionComponent>(entity).map(|c| c.is_closed());
			check!(closed == Some(false), "component", "frame {frame}: subscription {n} is open, its component says closed: {closed:?}");
			count("probe:open");
		}
	}
	for (d, (dest, expected)) in real.dests.iter().zip(&model.dests).enumerate() {
		check!(dest.1 == expected.log, "events", "frame {frame}: entity {d} observed {:?}, expected {:?}", dest.1, expected.log);
		if !expected.log.is_empty() {
			count("probe:events");
		}
	}
	for (n, (track, (place, torn))) in real.satellites.iter().zip(&model.satellites).enumerate() {
		// The entity of a subscription may take a frame to go
		let sure = match place {
			Place::Sub(sub) => {
				let sub = &model.subs[*sub];
				!sub.closed || sub.closed_in.0 < frame
			}
			_ => true,
		};
		if sure {
			check!((track.active() == 0) == *torn, "satellite", "frame {frame}: satellite {n} of {place:?} is torn down: {}, expected {torn}", track.active() == 0);
		}
		check!(!track.released_twice(), "satellite-twice", "frame {frame}: satellite {n} of {place:?} was torn down twice");
		count("probe:satellite");
	}
}

fn run(focus: Focus) {
	let setup = Arc::new(Setup::draw(focus));
	ev!("{:?} present {:?}, {} destinations, base plugin: {}", setup.feeds, setup.present, setup.dests, setup.base_plugin);
	let live = Live { setup: setup.clone(), state: Arc::default() };
	let script = live.clone();
	let mut app = stage(Arc::new(move |world, point| script.point(world, point)));
	if setup.base_plugin {
		app.add_plugins(RxPlugin);
	} else {
		app.add_plugins(RxSchedulerPlugin::<Last, Virtual>::default());
	}
	add_schedulers(&mut app);
	live.start(app.world_mut());
	let mut model = Model::new(&setup);
	for frame in 0..setup.frames {
		ev!("== frame {frame}");
		live.with(|s| s.frame = frame);
		model.frame = frame;
		app.world_mut().resource_mut::<Time<Virtual>>().advance_by(ms(10));
		sim_time(10);
		let retried = model.retries.len();
		if step("a frame", || app.update()).is_none() || violated() {
			std::mem::forget(app);
			return;
		}
		model.frame();
		if model.unsure {
			count("probe:unsure");
			break;
		}
		if retried > model.retries.len() {
			count("probe:retried");
		}
		compare(&live, &model, &app);
		if violated() {
			return;
		}
		if model.exited {
			count("probe:exited");
			break;
		}
	}
	if !model.exited && !model.unsure && chance(1, 2) {
		// Everything is let go of, and nothing may stay behind
		for n in 0..model.subs.len() {
			let entity = live.with(|s| s.subs[n].entity);
			if let Some(entity) = entity {
				app.world_mut().commands().entity(entity).try_despawn();
				model.later(Later::DespawnSub(n));
			} else if model.subs[n].handle {
				model.unsubscribe(n);
				let handle = live.with(|s| s.subs[n].handle.take());
				step("unsubscribe", || drop(handle));
			}
		}
		for frame in 0..5 {
			live.with(|s| s.frame = setup.frames + frame);
			model.frame = setup.frames + frame;
			if step("a frame", || app.update()).is_none() || violated() {
				std::mem::forget(app);
				return;
			}
			model.frame();
			compare(&live, &model, &app);
		}
		for when in ALL_WHEN {
			check!(when.is_empty(app.world()), "work-left", "every subscription is over, but the executor of {when:?} still has work");
		}
		let world = app.world_mut();
		let left = world.query_filtered::<(), (With<SubscriptionComponent>, Without<SubscriptionSatelliteOf>)>().iter(world).count();
		check!(left == 0, "subscriptions-left", "every subscription is over, but {left} entities are left of them");
		count("probe:drained");
	}
	if violated() {
		return;
	}
	step("dropping the app", || drop(app));
	let state = std::mem::take(&mut *live.state.lock().unwrap());
	let seen: Vec<(usize, Seen)> = state.subs.iter().enumerate().filter_map(|(n, s)| s.seen.clone().map(|s| (n, s))).collect();
	let satellites = state.satellites.clone();
	step("dropping what is left", || drop(state));
	for (n, seen) in seen {
		seen.check_grammar("a subscription entity");
		check!(seen.teardowns() == 1, "teardown-end", "the app is gone, the destination of subscription {n} was torn down {} times", seen.teardowns());
	}
	for track in satellites {
		check!(track.active() == 0 && !track.released_twice(), "satellite-end", "the app is gone, but a satellite wasn't torn down exactly once");
	}
}

fn lifecycle() {
	run(Focus::Lifecycle);
}

fn retries() {
	run(Focus::Retries);
}

fn exits() {
	run(Focus::Exit);
}

pub fn register(checks: &mut Vec<Check>) {
	let rule = "after every frame what every observer and every destination entity saw, which subscription entities exist, and which teardowns ran \
		are compared with a reference model of the frame; at the end the executors have to be empty and everything has to be released exactly once";
	checks.push(Check {
		property: "R20",
		worlds: vec![World { name: "lifecycle", run: lifecycle, quick: 6_000, thorough: 300_000 }],
		rule,
		real: REAL_BEVY,
		stubs: STUB_BEVY,
		probes: &["probe:open", "probe:events", "probe:satellite", "probe:drained", "fault:despawn_subscription", "fault:unsubscribe", "fault:reentrant"],
	});
	checks.push(Check {
		property: "R23",
		worlds: vec![World { name: "exits", run: exits, quick: 6_000, thorough: 300_000 }],
		rule,
		real: REAL_BEVY,
		stubs: STUB_BEVY,
		probes: &["probe:exited", "fault:app_exit"],
	});
	checks.push(Check {
		property: "R24",
		worlds: vec![World { name: "retries", run: retries, quick: 6_000, thorough: 300_000 }],
		rule,
		real: REAL_BEVY,
		stubs: STUB_BEVY,
		probes: &["probe:retried"],
	});
}
