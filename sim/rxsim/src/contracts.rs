//! R01, R02: what holds for every observable, however it's put together.
use crate::common::*;
use crate::forest::{Forest, Fuse, Hot};

#[derive(Clone, Debug)]
enum Act {
	Send(usize, Sig),
	Subscribe,
	Unsubscribe(u32),
	Drop(u32),
	IsClosed(u32),
	AddTeardown(u32),
}

impl Act {
	fn draw(hot: usize) -> Act {
		let at = draw(hot as u32) as usize;
		let who = draw(2);
		match weighted(&[12, 2, 1, 1, 1, 3, 1, 1, 1]) {
			0 => Act::Send(at, Sig::Next(draw(90) as V)),
			1 => Act::Send(at, Sig::Complete),
			2 => Act::Send(at, Sig::Error(draw(9) as E)),
			3 => Act::Send(at, Sig::Unsub),
			4 => Act::Subscribe,
			5 => Act::Unsubscribe(who),
			6 => Act::Drop(who),
			7 => Act::IsClosed(who),
			_ => Act::AddTeardown(who),
		}
	}
}

struct Guest {
	seen: Seen,
	strict: bool,
	unsubscribed: AtomicBool,
	added: Mutex<Vec<Tally>>,
}

/// What is checked
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Grammar,
	Releases,
}

struct Garden {
	focus: Focus,
	hot: Vec<Hot>,
	tree: Dyn,
	slots: Slots,
	guests: Mutex<Vec<Arc<Guest>>>,
	hooks: BTreeMap<(u32, usize), Act>,
	/// How much may still happen within callbacks
	budget: AtomicUsize,
	fuse: Fuse,
	/// Nobody else may come
	over: AtomicBool,
}

impl Garden {
	fn guest(&self, at: u32) -> Option<Arc<Guest>> {
		self.guests.lock().unwrap().get(at as usize).cloned()
	}

	fn subscribe(self: &Arc<Self>) {
		let name = {
			let guests = self.guests.lock().unwrap();
			if guests.len() >= 3 || self.over.load(Ordering::Relaxed) {
				return;
			}
			guests.len() as u32
		};
		let strict = name != 1;
		let hook: Option<Hook> = {
			let garden = Arc::downgrade(self);
			Some(Arc::new(move |_: &Sig, nth: usize| {
				let Some(garden) = garden.upgrade() else { return };
				garden.fuse.burn();
				if let Some(act) = garden.hooks.get(&(name, nth)) {
					if garden.budget.load(Ordering::Relaxed) == 0 {
						return;
					}
					garden.budget.fetch_sub(1, Ordering::Relaxed);
					count("fault:reentrant");
					garden.act(act);
				}
			}))
		};
		macro_rules! subscribe {
			($observer:ident) => {{
				let (observer, seen) = $observer::new(name, hook);
				self.guests.lock().unwrap().push(Arc::new(Guest {
					seen,
					strict,
					unsubscribed: AtomicBool::new(false),
					added: Mutex::default(),
				}));
				ErasedSubscription::new(self.tree.clone().subscribe(observer))
			}};
		}
		ev!("subscribe {name}");
		let subscription = if strict { subscribe!(Probe) } else { subscribe!(Plain) };
		self.slots.put(name, subscription);
		ev!("subscribed {name}");
	}

	fn act(self: &Arc<Self>, act: &Act) {
		ev!("{act:?}");
		match act {
			Act::Send(at, sig) => self.hot[*at].send(sig.clone()),
			Act::Subscribe => self.subscribe(),
			Act::Unsubscribe(who) => {
				if let Some(mut subscription) = self.slots.take(*who) {
					count("fault:unsubscribe");
					if let Some(guest) = self.guest(*who) {
						guest.unsubscribed.store(true, Ordering::Relaxed);
					}
					subscription.unsubscribe();
					self.slots.put(*who, subscription);
				}
			}
			Act::Drop(who) => {
				if let Some(subscription) = self.slots.take(*who) {
					count("fault:dropped");
					if let Some(guest) = self.guest(*who) {
						guest.unsubscribed.store(true, Ordering::Relaxed);
					}
					drop(subscription);
				}
			}
			Act::IsClosed(who) => {
				if let Some(subscription) = self.slots.take(*who) {
					subscription.is_closed();
					self.slots.put(*who, subscription);
				}
			}
			Act::AddTeardown(who) => {
				if let Some(mut subscription) = self.slots.take(*who) {
					let tally = Tally::default();
					subscription.add_teardown(Teardown::new(tally.on()));
					self.slots.put(*who, subscription);
					if let Some(guest) = self.guest(*who) {
						guest.added.lock().unwrap().push(tally);
					}
				}
			}
		}
	}

	fn check(&self) {
		for guest in self.guests.lock().unwrap().iter() {
			if self.focus == Focus::Grammar {
				guest.seen.check_grammar("an observable");
				continue;
			}
			if guest.strict {
				check!(
					guest.seen.teardowns() == guest.seen.closed() as u32,
					"observer-teardown",
					"closed: {}, but observer {} was released {} times",
					guest.seen.closed(),
					guest.seen.name,
					guest.seen.teardowns()
				);
			}
			for tally in guest.added.lock().unwrap().iter() {
				check!(tally.get() <= 1, "teardown-repeated", "a teardown added to subscription {} ran {} times", guest.seen.name, tally.get());
			}
		}
	}
}

fn grammar() {
	world(Focus::Grammar);
}

fn releases() {
	world(Focus::Releases);
}

fn world(focus: Focus) {
	let mut executor = MockExecutor::default();
	let handle = executor.get_scheduler_handle();
	let mut forest = Forest::new(&handle, focus == Focus::Grammar);
	let depth = draw_range(1, 3);
	let tree = forest.tree(depth);
	let mut hooks = BTreeMap::new();
	if chance(1, 2) {
		for _ in 0..draw_range(1, 4) {
			let (who, nth) = (weighted(&[3, 1, 1]) as u32, draw_range(1, 5) as usize);
			let act = Act::draw(forest.hot.len());
			hooks.insert((who, nth), act);
		}
	}
	ev!("hooks {hooks:?}");
	let garden = Arc::new(Garden {
		focus,
		hot: forest.hot.clone(),
		tree,
		slots: Slots::default(),
		guests: Mutex::default(),
		hooks,
		budget: AtomicUsize::new(12),
		fuse: forest.fuse.clone(),
		over: AtomicBool::new(false),
	});
	let mut now = 0;
	let mut clock = move |by: u64| {
		now += by;
		sim_time(by);
		ev!("pass at {now}ms");
		Tick::new(ms(now))
	};
	if step("subscribe", || garden.subscribe()).is_none() {
		return;
	}
	for _ in 0..draw_range(3, 25) {
		if chance(1, 3) {
			let delta = pick(&[10, 0, 5, 15, 25, 100]);
			let tick = clock(delta);
			step("pass", || executor.tick_to(tick));
		} else if forest.timed && chance(1, 8) {
			let act = Act::draw(forest.hot.len());
			let delay = pick(&[0, 5, 10, 20]);
			ev!("in {delay}ms {act:?}");
			count("fault:acts_within_the_executor");
			let garden = garden.clone();
			let mut scheduler = handle.lock();
			let id = scheduler.generate_cancellation_id();
			scheduler.schedule_delayed_work(move |_, _| garden.act(&act), ms(delay), id);
		} else {
			let act = Act::draw(forest.hot.len());
			step("act", || garden.act(&act));
			let gone = matches!(act, Act::Unsubscribe(0) | Act::Drop(0));
			if gone && forest.timed {
				// What works hold is released once their cancellation is processed
				let tick = clock(0);
				step("pass", || executor.tick_to(tick));
			}
			let alone = garden.guests.lock().unwrap().len() == 1;
			if gone
				&& focus == Focus::Releases
				&& alone
				&& !forest.postpones
				&& forest.in_reach()
				&& garden.guest(0).unwrap().unsubscribed.load(Ordering::Relaxed)
			{
				count("probe:unsubscribed");
				held(&forest, "unsubscribed");
				check!(garden.guest(0).unwrap().seen.closed(), "still-open", "the observer is still open after it was unsubscribed");
			}
		}
		garden.check();
		if focus == Focus::Releases {
			released_once(&forest);
		}
		if violated() {
			return;
		}
	}
	settle(garden, forest, handle, executor, clock);
}

fn grammar_threads() {
	threaded(Focus::Grammar);
}

fn releases_threads() {
	threaded(Focus::Releases);
}

/// The same, from several threads at once
fn threaded(focus: Focus) {
	let executor = MockExecutor::default();
	let handle = executor.get_scheduler_handle();
	let mut forest = Forest::new(&handle, focus == Focus::Grammar);
	let depth = draw_range(1, 2);
	let tree = forest.tree(depth);
	let garden = Arc::new(Garden {
		focus,
		hot: forest.hot.clone(),
		tree,
		slots: Slots::default(),
		guests: Mutex::default(),
		hooks: BTreeMap::new(),
		budget: AtomicUsize::new(12),
		fuse: forest.fuse.clone(),
		over: AtomicBool::new(false),
	});
	if step("subscribe", || garden.subscribe()).is_none() {
		return;
	}
	let executor = Arc::new(Mutex::new(Some(executor)));
	let now = Arc::new(AtomicUsize::new(0));
	let mut programs: Vec<Box<dyn FnOnce() + Send>> = vec![];
	for thread in 0..draw_range(2, 3) {
		let acts: Vec<Act> = (0..draw_range(1, 5))
			.map(|_| Act::draw(forest.hot.len()))
			.filter(|act| thread == 0 || !matches!(act, Act::Subscribe))
			.collect();
		ev!("thread {thread}: {acts:?}");
		let garden = garden.clone();
		programs.push(Box::new(move || {
			for act in acts {
				step("act", || garden.act(&act));
			}
		}));
	}
	if forest.timed {
		let ticks: Vec<u64> = (0..draw_range(1, 5)).map(|_| pick(&[10, 0, 5, 15, 25, 100])).collect();
		let (executor, now) = (executor.clone(), now.clone());
		programs.push(Box::new(move || {
			let Some(mut executor_here) = executor.lock().unwrap().take() else { return };
			for by in ticks {
				let at = now.fetch_add(by as usize, Ordering::Relaxed) as u64 + by;
				sim_time(by);
				ev!("pass at {at}ms");
				step("pass", || executor_here.tick_to(Tick::new(ms(at))));
			}
			*executor.lock().unwrap() = Some(executor_here);
		}));
	}
	threads(pick(&[3, 2, 6, 20]), programs);
	if violated() {
		return;
	}
	garden.check();
	if focus == Focus::Releases {
		released_once(&forest);
	}
	let executor = executor.lock().unwrap().take().unwrap();
	let clock = move |by: u64| {
		let at = now.fetch_add(by as usize, Ordering::Relaxed) as u64 + by;
		sim_time(by);
		ev!("pass at {at}ms");
		Tick::new(ms(at))
	};
	settle(garden, forest, handle, executor, clock);
}

fn released_once(forest: &Forest) {
	for (name, track) in &forest.tracks {
		check!(!track.released_twice(), "released-twice", "what {name} holds was released twice");
	}
}

fn held(forest: &Forest, when: &str) {
	for (name, track) in &forest.tracks {
		check!(
			track.active() == 0,
			format!("held-{when}"),
			"{} of {} subscriptions to {name} are still held, although everything was {when}",
			track.active(),
			track.acquired()
		);
	}
}

fn settle(garden: Arc<Garden>, forest: Forest, handle: Handle, mut executor: MockExecutor, mut clock: impl FnMut(u64) -> Tick) {
	let end = draw(4);
	let focus = garden.focus;
	garden.over.store(true, Ordering::Relaxed);
	ev!("the end {end}");
	match end {
		0 => {
			for id in garden.slots.ids() {
				step("act", || garden.act(&Act::Unsubscribe(id)));
			}
		}
		1 => {
			for id in garden.slots.ids() {
				step("act", || garden.act(&Act::Drop(id)));
			}
		}
		2 => {
			for hot in 0..forest.hot.len() {
				step("act", || garden.act(&Act::Send(hot, Sig::Complete)));
			}
			for id in garden.slots.ids() {
				step("act", || garden.act(&Act::Unsubscribe(id)));
			}
		}
		_ => {
			count("fault:executor_dropped");
			step("drop the executor", || drop(executor));
			step("drop", || garden.slots.clear());
			let seen: Vec<Arc<Guest>> = garden.guests.lock().unwrap().clone();
			step("drop", || drop(garden));
			// Works that were never run are still waiting in the scheduler
			let in_reach = forest.in_reach() && focus == Focus::Releases;
			let tracks = if forest.timed || !in_reach { vec![] } else { forest.tracks.clone() };
			let timed = forest.timed;
			step("drop", || drop(handle));
			step("drop", || drop(forest));
			for (name, track) in tracks {
				check!(
					track.active() == 0,
					"held-shutdown",
					"{} of {} subscriptions to {name} are still held, although everything was dropped",
					track.active(),
					track.acquired()
				);
			}
			for guest in seen {
				if focus == Focus::Grammar {
					guest.seen.check_grammar("an observable");
				} else if guest.strict && !timed && in_reach {
					check!(guest.seen.teardowns() == 1, "observer-left-open", "observer {} was released {} times", guest.seen.name, guest.seen.teardowns());
				}
			}
			return;
		}
	}
	for _ in 0..6 {
		let tick = clock(100);
		step("pass", || executor.tick_to(tick));
		garden.check();
	}
	if focus == Focus::Grammar || !forest.in_reach() {
		return;
	}
	held(&forest, "unsubscribed");
	released_once(&forest);
	for guest in garden.guests.lock().unwrap().iter() {
		let name = guest.seen.name;
		check!(
			!guest.strict || guest.seen.closed() && guest.seen.teardowns() == 1,
			"observer-left-open",
			"observer {name} is closed: {}, released {} times",
			guest.seen.closed(),
			guest.seen.teardowns()
		);
		for tally in guest.added.lock().unwrap().iter() {
			check!(tally.get() == 1, "teardown-missing", "a teardown added to subscription {name} ran {} times", tally.get());
		}
	}
	check!(executor.is_empty(), "work-left-behind", "everything is unsubscribed, but there is still work scheduled");
}

pub fn register(checks: &mut Vec<Check>) {
	checks.push(Check {
		property: "R01",
		worlds: vec![
			World { name: "contracts", run: grammar, quick: 400_000, thorough: 8_000_000 },
			World { name: "contracts_threads", run: grammar_threads, quick: 60_000, thorough: 1_500_000 },
		],
		rule: "distinct hashes over the shape of the tree, the acts, ticks and signals of a run, with more than 3 events",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &["fault:unsubscribe", "fault:dropped", "fault:reentrant", "fault:acts_within_the_executor", "fault:executor_dropped"],
	});
	checks.push(Check {
		property: "R02",
		worlds: vec![
			World { name: "releases", run: releases, quick: 400_000, thorough: 8_000_000 },
			World { name: "releases_threads", run: releases_threads, quick: 60_000, thorough: 1_500_000 },
		],
		rule: "distinct hashes over the shape of the tree, the acts, ticks and signals of a run, with more than 3 events",
		real: REAL_CORE,
		stubs: STUB_CORE,
		probes: &[
			"probe:unsubscribed",
			"fault:unsubscribe",
			"fault:dropped",
			"fault:reentrant",
			"fault:acts_within_the_executor",
			"fault:executor_dropped",
		],
	});
}
