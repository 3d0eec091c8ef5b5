//! R16: share and connectable observables.
use crate::common::*;

/// What a connection to the source does
#[derive(Clone, Debug)]
struct Plan {
	values: u32,
	/// Goes on until nobody listens
	endless: bool,
	/// Otherwise it goes on with a subject of its own
	end: Option<Sig>,
}

impl Plan {
	fn draw() -> Plan {
		Plan {
			values: draw(4),
			endless: chance(1, 12),
			end: match weighted(&[10, 2, 1, 1]) {
				0 => None,
				1 => Some(Sig::Complete),
				2 => Some(Sig::Error(draw(9) as E)),
				_ => Some(Sig::Unsub),
			},
		}
	}
}

const ENDLESS: u32 = 40;

#[derive(Clone, Copy, Debug)]
struct Options {
	share: bool,
	connector: Connector,
	ref_count: bool,
	on_disconnect: bool,
	on_complete: bool,
	on_error: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Connector {
	Publish,
	Replay,
	Async,
}

impl Options {
	fn draw() -> Options {
		Options {
			share: chance(1, 2),
			connector: pick(&[Connector::Publish, Connector::Publish, Connector::Replay, Connector::Async]),
			ref_count: chance(2, 3),
			on_disconnect: chance(1, 3),
			on_complete: chance(1, 3),
			on_error: chance(1, 3),
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
	Subscribe(Option<usize>),
	Unsubscribe(u32),
	Connect,
	Disconnect,
	DisconnectHandle,
	Reset,
	Emit,
	End(u32),
}

impl Act {
	fn draw(options: &Options) -> Act {
		match weighted(&[5, 4, 2, 1, 1, 1, 10, 2]) {
			0 => Act::Subscribe(chance(1, 4).then(|| draw(4) as usize)),
			1 => Act::Unsubscribe(draw(8)),
			2 => Act::Connect,
			3 => Act::Disconnect,
			4 => Act::DisconnectHandle,
			5 if !options.share => Act::Reset,
			6 => Act::Emit,
			5 => Act::Disconnect,
			_ => Act::End(draw(3)),
		}
	}
}

fn end_of(n: u32) -> Sig {
	[Sig::Complete, Sig::Error(7), Sig::Unsub][n as usize].clone()
}

// ───────────────────────── the real thing

trait Shared: Send + Sync {
	fn subscribe(&mut self, take: Option<usize>, observer: Plain) -> AnySubscription;
	/// Returns what tells whether that connection is over, and what unsubscribes it
	fn connect(&mut self) -> Box<dyn Handle_>;
	fn disconnect(&mut self) -> bool;
	fn is_connected(&self) -> bool;
	fn reset(&mut self);
	fn copy(&self) -> Box<dyn Shared>;
}

trait Handle_: Send + Sync {
	fn is_closed(&self) -> bool;
	fn unsubscribe(&mut self);
}

struct AHandle<T>(T);

impl<T: SubscriptionLike + Send + Sync> Handle_ for AHandle<T> {
	fn is_closed(&self) -> bool {
		self.0.is_closed()
	}
	fn unsubscribe(&mut self) {
		self.0.unsubscribe();
	}
}

struct Shr<T>(T);
struct Con<T>(T);

macro_rules! shared {
	(common) => {
		fn subscribe(&mut self, take: Option<usize>, observer: Plain) -> AnySubscription {
			match take {
				Some(n) => ErasedSubscription::new(self.0.clone().take(n).subscribe(observer)),
				None => ErasedSubscription::new(self.0.subscribe(observer)),
			}
		}
		fn connect(&mut self) -> Box<dyn Handle_> {
			Box::new(AHandle(self.0.connect()))
		}
		fn disconnect(&mut self) -> bool {
			self.0.disconnect()
		}
		fn is_connected(&self) -> bool {
			self.0.is_connected()
		}
		fn copy(&self) -> Box<dyn Shared> {
			Box::new(Self(self.0.clone()))
		}
	};
	($subject:ty) => {
		impl Shared for Shr<rx_core_operator_share::observable::ShareObservable<Dyn, ProvideWithDefault<$subject>>> {
			shared!(common);
			fn reset(&mut self) {}
		}
		impl Shared for Con<ConnectableObservable<Dyn, ProvideWithDefault<$subject>>> {
			shared!(common);
			fn reset(&mut self) {
				self.0.reset();
			}
		}
	};
}

type Publish = PublishSubject<V, E>;
type Replay = ReplaySubject<2, V, E>;
type Asynchronous = AsyncSubject<V, E>;
shared!(Publish);
shared!(Replay);
shared!(Asynchronous);

fn make(source: Dyn, options: Options) -> Box<dyn Shared> {
	macro_rules! made {
		($subject:ty) => {{
			let o = ConnectableOptions {
				connector_provider: ProvideWithDefault::<$subject>::default(),
				disconnect_when_ref_count_zero: options.ref_count,
				reset_connector_on_disconnect: options.on_disconnect,
				reset_connector_on_complete: options.on_complete,
				reset_connector_on_error: options.on_error,
			};
			if options.share { Box::new(Shr(source.share(o))) as Box<dyn Shared> } else { Box::new(Con(ConnectableObservable::new(source, o))) }
		}};
	}
	match options.connector {
		Connector::Publish => made!(Publish),
		Connector::Replay => made!(Replay),
		Connector::Async => made!(Asynchronous),
	}
}

#[derive(Clone)]
struct World_ {
	options: Options,
	plans: Vec<Plan>,
	connections: Arc<AtomicUsize>,
	values: Arc<AtomicUsize>,
	/// Of the last connection
	subject: Arc<Mutex<Option<Publish>>>,
	track: Track,
	slots: Slots,
	seen: Arc<Mutex<Vec<Seen>>>,
	handle: Arc<Mutex<Option<Box<dyn Handle_>>>>,
	/// Emitted although told that nobody listens
	went_on: Arc<AtomicBool>,
	hooks: BTreeMap<(u32, usize), Act>,
	connected_by_hand: Arc<AtomicBool>,
	quiet: Arc<AtomicBool>,
}

impl World_ {
	fn new(options: Options, hooks: BTreeMap<(u32, usize), Act>) -> World_ {
		let plans: Vec<Plan> = (0..draw_range(1, 4)).map(|_| Plan::draw()).collect();
		ev!("{options:?} {plans:?} {hooks:?}");
		World_ {
			options,
			plans,
			connections: Arc::default(),
			values: Arc::default(),
			subject: Arc::default(),
			track: Track::new(0),
			slots: Slots::default(),
			seen: Arc::default(),
			handle: Arc::default(),
			went_on: Arc::default(),
			hooks,
			connected_by_hand: Arc::default(),
			quiet: Arc::default(),
		}
	}

	fn next_value(&self) -> V {
		self.values.fetch_add(1, Ordering::Relaxed) as V
	}

	fn source(&self) -> Dyn {
		let world = self.clone();
		Dyn::custom(move |mut destination| {
			let n = world.connections.fetch_add(1, Ordering::Relaxed);
			let plan = world.plans[n.min(world.plans.len() - 1)].clone();
			ev!("connection {n} {plan:?}");
			let subject = Publish::default();
			let old = world.subject.lock().unwrap().replace(subject.clone());
			drop(old);
			for nth in 0..if plan.endless { ENDLESS } else { plan.values } {
				if destination.is_closed() {
					break;
				}
				if nth + 1 == ENDLESS {
					world.went_on.store(true, Ordering::Relaxed);
				}
				let v = world.next_value();
				ev!("emits {v}");
				destination.next(v);
			}
			match plan.end {
				None => {
					let mut subject = subject;
					ErasedSubscription::new(subject.subscribe(destination))
				}
				Some(end) => Dyn::make(move || {
					let end = end.clone();
					create_observable(move |destination: &mut dyn Subscriber<In = V, InError = E>| match end {
						Sig::Error(e) => destination.error(e),
						Sig::Complete => destination.complete(),
						_ => destination.unsubscribe(),
					})
				})
				.subscribe(destination),
			}
		})
		.tracked(&self.track)
	}

	fn act(&self, shared: &dyn Shared, act: Act) -> Option<bool> {
		match act {
			Act::Subscribe(take) => {
				let id = self.seen.lock().unwrap().len() as u32;
				let hook: Option<Hook> = self.hooks.keys().any(|(who, _)| *who == id).then(|| {
					let (world, shared) = (self.clone(), Mutex::new(shared.copy()));
					let values = AtomicUsize::new(0);
					Arc::new(move |sig: &Sig, _: usize| {
						// The terminal one is the 0th
						let nth = match sig {
							Sig::Next(_) => values.fetch_add(1, Ordering::Relaxed) + 1,
							Sig::Unsub => return,
							_ => 0,
						};
						if let Some(act) = world.hooks.get(&(id, nth))
							&& !world.quiet.load(Ordering::Relaxed)
						{
							count("fault:reentrant");
							ev!("hook of {id}: {act:?}");
							let own = shared.lock().unwrap().copy();
							world.act(&*own, *act);
						}
					}) as Hook
				});
				let (observer, seen) = Plain::new(id, hook);
				self.seen.lock().unwrap().push(seen);
				let subscription = shared.copy().subscribe(take, observer);
				self.slots.put(id, subscription);
				None
			}
			Act::Unsubscribe(id) => {
				if let Some(mut subscription) = self.slots.take(id) {
					subscription.unsubscribe();
				}
				None
			}
			Act::Connect => {
				self.connected_by_hand.store(true, Ordering::Relaxed);
				let handle = shared.copy().connect();
				let old = self.handle.lock().unwrap().replace(handle);
				drop(old);
				None
			}
			Act::Disconnect => Some(shared.copy().disconnect()),
			Act::DisconnectHandle => {
				let handle = self.handle.lock().unwrap().take();
				if let Some(mut handle) = handle {
					handle.unsubscribe();
					self.handle.lock().unwrap().get_or_insert(handle);
				}
				None
			}
			Act::Reset => {
				shared.copy().reset();
				None
			}
			Act::Emit => {
				let subject = self.subject.lock().unwrap().clone();
				if let Some(mut subject) = subject {
					let v = self.next_value();
					ev!("pushes {v}");
					subject.next(v);
				}
				None
			}
			Act::End(n) => {
				let subject = self.subject.lock().unwrap().clone();
				if let Some(mut subject) = subject {
					match end_of(n) {
						Sig::Complete => subject.complete(),
						Sig::Error(e) => subject.error(e),
						_ => subject.unsubscribe(),
					}
				}
				None
			}
		}
	}
}

// ───────────────────────── the model

struct Subject {
	finished: Option<Sig>,
	buffer: Vec<V>,
}

struct Observer {
	subject: usize,
	open: bool,
	out: Vec<Sig>,
	left: Option<usize>,
}

struct Model {
	options: Options,
	plans: Vec<Plan>,
	subjects: Vec<Subject>,
	connector: Option<usize>,
	/// The active one, and the subject it's connected to
	connection: Option<(usize, usize)>,
	connections: usize,
	handle: Option<usize>,
	observers: Vec<Observer>,
	/// Being subscribed
	joining: usize,
	values: V,
}

impl Model {
	fn connector(&mut self) -> usize {
		if self.connector.is_none() {
			self.subjects.push(Subject { finished: None, buffer: vec![] });
			self.connector = Some(self.subjects.len() - 1);
		}
		self.connector.unwrap()
	}

	fn receive(&mut self, id: usize, sig: Sig) {
		let observer = &mut self.observers[id];
		if !observer.open {
			return;
		}
		match sig {
			Sig::Next(v) => {
				observer.out.push(Sig::Next(v));
				if let Some(left) = &mut observer.left {
					*left -= 1;
					if *left == 0 {
						observer.out.push(Sig::Complete);
						self.leave(id);
					}
				}
			}
			Sig::Unsub => self.leave(id),
			sig => {
				observer.out.push(sig);
				self.leave(id);
			}
		}
	}

	fn leave(&mut self, id: usize) {
		self.observers[id].open = false;
		self.count_down();
	}

	fn count_down(&mut self) {
		if self.options.ref_count && self.joining == 0 && self.observers.iter().all(|o| !o.open) {
			self.disconnect();
		}
	}

	fn disconnect(&mut self) -> bool {
		let was = self.connection.take();
		if let Some((_, subject)) = was
			&& self.options.on_disconnect
			&& self.connector == Some(subject)
		{
			self.connector = None;
		}
		was.is_some()
	}

	fn relay(&mut self, connection: usize, sig: Sig) {
		let Some((current, s)) = self.connection else { return };
		if current != connection {
			return;
		}
		let listeners: Vec<usize> = (0..self.observers.len()).filter(|i| self.observers[*i].subject == s && self.observers[*i].open).collect();
		match sig {
			Sig::Next(v) => {
				let buffer = &mut self.subjects[s].buffer;
				buffer.push(v);
				let keep = match self.options.connector {
					Connector::Publish => 0,
					Connector::Replay => 2,
					Connector::Async => 1,
				};
				let too_many = buffer.len().saturating_sub(keep);
				buffer.drain(..too_many);
				if self.options.connector != Connector::Async {
					for id in listeners {
						self.receive(id, Sig::Next(v));
					}
				}
			}
			Sig::Unsub => {
				self.disconnect();
			}
			sig => {
				self.connection = None;
				let reset = if sig == Sig::Complete { self.options.on_complete } else { self.options.on_error };
				if reset && self.connector == Some(s) {
					self.connector = None;
				}
				self.subjects[s].finished = Some(sig.clone());
				if self.options.connector == Connector::Async && sig == Sig::Complete {
					for v in self.subjects[s].buffer.clone() {
						for id in &listeners {
							self.receive(*id, Sig::Next(v));
						}
					}
				}
				for id in listeners {
					self.receive(id, sig.clone());
				}
			}
		}
	}

	fn connect(&mut self) {
		if self.connection.is_some() {
			return;
		}
		if self.connector.is_some_and(|c| self.subjects[c].finished.is_some()) {
			self.connector = None;
		}
		let subject = self.connector();
		let n = self.connections;
		self.connections += 1;
		self.connection = Some((n, subject));
		let plan = self.plans[n.min(self.plans.len() - 1)].clone();
		for _ in 0..if plan.endless { ENDLESS } else { plan.values } {
			if self.connection != Some((n, subject)) {
				break;
			}
			let v = self.values;
			self.values += 1;
			self.relay(n, Sig::Next(v));
		}
		if let Some(end) = plan.end {
			self.relay(n, end);
		}
	}

	fn act(&mut self, act: Act) -> Option<bool> {
		match act {
			Act::Subscribe(take) => {
				self.joining = 1;
				let s = self.connector();
				let id = self.observers.len();
				self.observers.push(Observer { subject: s, open: true, out: vec![], left: take });
				if take == Some(0) {
					self.receive(id, Sig::Complete);
				}
				let finished = self.subjects[s].finished.clone();
				let replays = match self.options.connector {
					Connector::Publish => false,
					Connector::Replay => !matches!(finished, Some(Sig::Error(_))),
					Connector::Async => finished == Some(Sig::Complete),
				};
				if replays {
					for v in self.subjects[s].buffer.clone() {
						self.receive(id, Sig::Next(v));
					}
				}
				if let Some(end) = finished {
					self.receive(id, end);
				}
				self.joining = 0;
				if !self.observers[id].open {
					self.count_down();
				} else if self.options.share {
					self.connect();
				}
				None
			}
			Act::Unsubscribe(id) => {
				if (id as usize) < self.observers.len() && self.observers[id as usize].open {
					self.receive(id as usize, Sig::Unsub);
				}
				None
			}
			Act::Connect => {
				if self.connection.is_none() {
					self.handle = Some(self.connections);
					self.connect();
				} else {
					self.handle = self.connection.map(|c| c.0);
				}
				None
			}
			Act::Disconnect => Some(self.disconnect()),
			Act::DisconnectHandle => {
				if self.handle.is_some() && self.connection.map(|c| c.0) == self.handle {
					self.disconnect();
				}
				None
			}
			Act::Reset => {
				self.disconnect();
				self.connector = None;
				None
			}
			Act::Emit => {
				if self.connections > 0 {
					let v = self.values;
					self.values += 1;
					self.relay(self.connections - 1, Sig::Next(v));
				}
				None
			}
			Act::End(n) => {
				if self.connections > 0 {
					self.relay(self.connections - 1, end_of(n));
				}
				None
			}
		}
	}
}

// ───────────────────────── worlds

fn sharing() {
	let options = Options::draw();
	let world = World_::new(options, BTreeMap::new());
	let shared = make(world.source(), options);
	let mut model = Model {
		options,
		plans: world.plans.clone(),
		subjects: vec![],
		connector: None,
		connection: None,
		connections: 0,
		handle: None,
		observers: vec![],
		joining: 0,
		values: 0,
	};
	for _ in 0..draw_range(3, 24) {
		let act = Act::draw(&options);
		if matches!(act, Act::Subscribe(_)) && model.observers.len() >= 8 {
			continue;
		}
		match act {
			Act::Unsubscribe(_) => count("fault:unsubscribe"),
			Act::Disconnect | Act::DisconnectHandle | Act::Reset => count("fault:disconnect"),
			_ => {}
		}
		ev!("{act:?}");
		let expected = model.act(act);
		let Some(answered) = step("act", || world.act(&*shared, act)) else {
			return;
		};
		check!(answered == expected, "disconnected", "disconnect returned {answered:?} instead of {expected:?}");
		for (id, observer) in model.observers.iter().enumerate() {
			let seen = world.seen.lock().unwrap()[id].clone();
			seen.check_grammar("what is shared");
			let log = seen.log();
			if log != observer.out {
				violation(
					if observer.out.starts_with(&log) { "signals-missing" } else { "signals-different" },
					format!("observer {id} observed {log:?} instead of {:?}", observer.out),
				);
			}
			if let Some(subscription) = world.slots.take(id as u32) {
				let says = subscription.is_closed();
				world.slots.put(id as u32, subscription);
				check!(says != observer.open, "is-closed", "the subscription of {id} says closed: {says} instead of {}", !observer.open);
			}
		}
		let connected = model.connection.is_some();
		check!(
			world.track.acquired() as usize == model.connections,
			"connections",
			"the source was subscribed to {} times instead of {}",
			world.track.acquired(),
			model.connections
		);
		check!(
			world.track.active() == connected as u32 && !world.track.released_twice(),
			"upstream-teardown",
			"connected: {connected}, but {} connections aren't released, released twice: {}",
			world.track.active(),
			world.track.released_twice()
		);
		check!(shared.is_connected() == connected, "is-connected", "is_connected() is {} instead of {connected}", !connected);
		if let Some(handle) = &*world.handle.lock().unwrap() {
			let active = model.connection.map(|c| c.0) == model.handle;
			check!(handle.is_closed() != active, "handle", "the handle of connection {:?} says closed: {active}", model.handle);
		}
		if violated() {
			return;
		}
	}
	if model.connections > 1 {
		count("probe:reconnected");
	}
	if model.observers.iter().filter(|o| o.out.len() > 1).count() > 1 {
		count("probe:shared");
	}
	finish(world, shared);
}

fn finish(world: World_, shared: Box<dyn Shared>) {
	ev!("the end");
	let someone = world.slots.ids().into_iter().any(|id| {
		world.slots.take(id).is_some_and(|s| {
			let closed = s.is_closed();
			world.slots.put(id, s);
			!closed
		})
	});
	step("unsubscribe", || world.slots.clear());
	if world.options.ref_count && someone && !violated() {
		check!(
			world.track.active() == 0 && !shared.is_connected(),
			"leaked",
			"nobody is subscribed, but the source still is: {} connections aren't released, is_connected: {}",
			world.track.active(),
			shared.is_connected()
		);
	}
	step("disconnect", || shared.copy().disconnect());
	check!(
		world.track.active() == 0 && !world.track.released_twice(),
		"upstream-teardown",
		"disconnected, but {} connections aren't released, released twice: {}",
		world.track.active(),
		world.track.released_twice()
	);
}

/// Everything also within callbacks, checked with what has to hold whatever happens in which order
fn sharing_nested() {
	let mut options = Options::draw();
	options.connector = Connector::Publish;
	let mut hooks = BTreeMap::new();
	for _ in 0..draw_range(1, 4) {
		let act = Act::draw(&options);
		hooks.insert((draw(4), draw(5) as usize), act);
	}
	let world = World_::new(options, hooks);
	let shared = make(world.source(), options);
	for n in 0..draw_range(4, 20) {
		let act = if n == 0 { Act::Subscribe(None) } else { Act::draw(&options) };
		if matches!(act, Act::Subscribe(_)) && world.seen.lock().unwrap().len() >= 8 {
			continue;
		}
		ev!("{act:?}");
		if step("act", || world.act(&*shared, act)).is_none() {
			return;
		}
		let seen = world.seen.lock().unwrap().clone();
		let mut open = 0;
		for (id, a) in seen.iter().enumerate() {
			a.check_grammar("what is shared");
			let (values, subscription) = (a.values(), world.slots.take(id as u32));
			if let Some(subscription) = subscription {
				open += !subscription.is_closed() as u32;
				check!(
					subscription.is_closed() || a.terminal().is_none(),
					"is-closed",
					"{id} observed {:?}, but its subscription isn't closed",
					a.terminal()
				);
				world.slots.put(id as u32, subscription);
			}
			check!(values.windows(2).all(|w| w[0] < w[1]), "order", "{id} observed {values:?}");
			// Whatever two observe while both are subscribed is the same
			for (other, b) in seen.iter().enumerate().skip(id + 1) {
				let b = b.values();
				let (Some(from), Some(to)) = (values.first().max(b.first()), values.last().min(b.last())) else {
					continue;
				};
				if values.is_empty() || b.is_empty() {
					continue;
				}
				let within = |of: &Vec<V>| of.iter().copied().filter(|v| v >= from && v <= to).collect::<Vec<_>>();
				check!(
					within(&values) == within(&b),
					"different",
					"{id} and {other} observed something different from the same connection: {values:?} and {b:?}"
				);
			}
		}
		let connected = shared.is_connected();
		check!(
			world.track.active() == connected as u32 && !world.track.released_twice(),
			"upstream-teardown",
			"connected: {connected}, but {} connections aren't released, released twice: {}",
			world.track.active(),
			world.track.released_twice()
		);
		check!(
			!(options.ref_count && options.share && open == 0 && connected && !world.connected_by_hand.load(Ordering::Relaxed)),
			"leaked",
			"nobody is subscribed, but the source still is"
		);
		if violated() {
			return;
		}
	}
	// Whoever is still subscribed to what is connected is told about the next value
	world.quiet.store(true, Ordering::Relaxed);
	if !options.on_disconnect && options.share && shared.is_connected() {
		let next = world.values.load(Ordering::Relaxed) as V;
		let open = |id: u32| {
			world.slots.take(id).is_some_and(|s| {
				let closed = s.is_closed();
				world.slots.put(id, s);
				!closed
			})
		};
		let listening: Vec<u32> = world.slots.ids().into_iter().filter(|id| open(*id)).collect();
		step("act", || world.act(&*shared, Act::Emit));
		for id in listening {
			count("probe:nested");
			let values = world.seen.lock().unwrap()[id as usize].values();
			check!(
				values.last() == Some(&next),
				"signals-missing",
				"{id} is subscribed and the source is connected, but it didn't observe {next}: {values:?}"
			);
		}
	}
	finish(world, shared);
}

/// Threads subscribe, push, unsubscribe and connect
fn sharing_threads() {
	let mut options = Options::draw();
	options.share = true;
	options.connector = Connector::Publish;
	options.ref_count = true;
	let mut world = World_::new(options, BTreeMap::new());
	world.plans.iter_mut().for_each(|plan| plan.endless = false);
	let shared = make(world.source(), options);
	let n = draw_range(2, 3);
	let mut closures: Vec<Box<dyn FnOnce() + Send>> = vec![];
	for _ in 0..n {
		let (world, own) = (world.clone(), shared.copy());
		let acts: Vec<u32> = (0..draw_range(1, 4)).map(|_| weighted(&[4, 3, 3, 1, 1]) as u32).collect();
		let take = chance(1, 4).then(|| 1 + draw(2) as usize);
		ev!("thread: {acts:?} take {take:?}");
		closures.push(Box::new(move || {
			let mut mine: Vec<AnySubscription> = vec![];
			for act in acts {
				match act {
					0 => {
						let (observer, seen) = {
							let mut all = world.seen.lock().unwrap();
							let (observer, seen) = Plain::new(all.len() as u32, None);
							all.push(seen.clone());
							(observer, seen)
						};
						let subscription = own.copy().subscribe(take, observer);
						ev!("{} subscribed", seen.name);
						mine.push(subscription);
					}
					1 => {
						mine.pop();
					}
					2 => {
						world.act(&*own, Act::Emit);
					}
					3 => {
						own.copy().disconnect();
					}
					_ => {
						world.act(&*own, Act::End(0));
					}
				}
			}
			for mut subscription in mine {
				subscription.unsubscribe();
			}
		}));
	}
	step("threads", || threads(4, closures));
	if violated() {
		return;
	}
	for seen in world.seen.lock().unwrap().iter() {
		seen.check_grammar("what is shared by threads");
		let values = seen.values();
		let mut sorted = values.clone();
		sorted.sort();
		sorted.dedup();
		check!(sorted.len() == values.len(), "duplicate", "{} observed {values:?}", seen.name);
		if values.len() > 1 {
			count("probe:threads");
		}
	}
	check!(
		world.track.active() == 0 && !world.track.released_twice() && !shared.is_connected(),
		"leaked",
		"everyone unsubscribed, but {} connections aren't released, released twice: {}, is_connected: {}",
		world.track.active(),
		world.track.released_twice(),
		shared.is_connected()
	);
	finish(world, shared);
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R16",
		worlds: vec![
			World { name: "sharing", run: sharing, quick: 60_000, thorough: 3_000_000 },
			World { name: "sharing_threads", run: sharing_threads, quick: 8_000, thorough: 400_000 },
			World { name: "sharing_nested", run: sharing_nested, quick: 40_000, thorough: 2_000_000 },
		],
		rule: "after every step what every observer saw, how often the source was subscribed to and whether that was released, is_connected and the \
			connection's handle are compared with a reference model; with acts nested in callbacks: at most one connection, exactly when there \
			should be one, everyone who is subscribed sees the same, in order",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["probe:reconnected", "probe:shared", "probe:nested", "probe:threads", "fault:reentrant", "fault:unsubscribe", "fault:disconnect"],
	});
}
