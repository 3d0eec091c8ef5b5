//! The state of the one simulated run this process is executing.
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard};

use crate::draw::*;
use simstd::simulator as sim;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
	pub property: String,
	/// Stable signature of what was violated, used when minimising and to match
	/// known findings
	pub kind: String,
	pub message: String,
}

pub struct RunState {
	pub ops: Stream,
	pub sched: Stream,
	/// Preemption policy, drawn per run: switch with 1/n probability. 0: never.
	pub preempt_one_in: u32,
	pub property: String,
	pub violation: Option<Violation>,
	pub log: Vec<String>,
	pub log_enabled: bool,
	pub hash: u64,
	pub events: u64,
	pub counters: BTreeMap<&'static str, u64>,
	pub sim_time_ms: u64,
	pub last_panic: Option<String>,
	/// Panics we inject carry this marker
	pub depth: u32,
}

static RUN: Mutex<Option<RunState>> = Mutex::new(None);
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
/// Address range independent: the seed for the `RandomState` of every HashMap
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buffer: *mut u8, len: usize, _flags: u32) -> isize {
	let mut rng = Rng(HASH_SEED.load(Ordering::Relaxed));
	for i in 0..len {
		unsafe { *buffer.add(i) = (rng.next() >> 24) as u8 };
	}
	len as isize
}

pub const INJECTED_PANIC: &str = "simulated fault: this callback panics";

fn guard() -> MutexGuard<'static, Option<RunState>> {
	RUN.lock().unwrap_or_else(|p| p.into_inner())
}

pub fn with_run<R>(f: impl FnOnce(&mut RunState) -> R) -> R {
	let mut guard = guard();
	f(guard.as_mut().expect("a run to be active"))
}

/// A choice in `0..n`
pub fn draw(n: u32) -> u32 {
	with_run(|r| r.ops.below(n))
}

pub fn draw_range(from: u32, to_inclusive: u32) -> u32 {
	from + draw(to_inclusive - from + 1)
}

/// True with `num/den` probability. The simple choice (0) is `false`.
pub fn chance(num: u32, den: u32) -> bool {
	if num == 0 {
		return false;
	}
	draw(den) >= den - num.min(den)
}

/// Index into weights. Earlier entries are simpler.
pub fn weighted(weights: &[u32]) -> usize {
	let total: u32 = weights.iter().sum();
	let mut pick = draw(total);
	for (i, w) in weights.iter().enumerate() {
		if pick < *w {
			return i;
		}
		pick -= w;
	}
	weights.len() - 1
}

pub fn pick<T: Clone>(items: &[T]) -> T {
	items[draw(items.len() as u32) as usize].clone()
}

pub fn count(name: &'static str) {
	count_by(name, 1)
}

pub fn count_by(name: &'static str, by: u64) {
	with_run(|r| *r.counters.entry(name).or_insert(0) += by);
}

pub fn sim_time(ms: u64) {
	with_run(|r| r.sim_time_ms += ms);
}

/// Logs an event of the run. Also feeds the trajectory hash.
#[macro_export]
macro_rules! ev {
	($($arg:tt)*) => {
		$crate::log_event(format_args!($($arg)*))
	};
}

pub fn log_event(args: std::fmt::Arguments<'_>) {
	let text = args.to_string();
	let task = sim::current_task();
	with_run(|r| {
		let mut h = r.hash;
		for b in text.bytes() {
			h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
		}
		h = (h ^ task as u64).wrapping_mul(0x100_0000_01B3);
		r.hash = h ^ (h >> 32);
		r.events += 1;
		if r.log_enabled {
			let line = if task == 0 { text } else { format!("[thread {task}] {text}") };
			r.log.push(line);
		}
	});
}

/// Reports a violation of the property under check. The first one wins.
pub fn violation(kind: impl Into<String>, message: impl Into<String>) {
	let kind = kind.into();
	let message = message.into();
	log_event(format_args!("!! {kind}: {message}"));
	with_run(|r| {
		if r.violation.is_none() {
			r.violation = Some(Violation { property: r.property.clone(), kind, message });
		}
	});
}

pub fn violated() -> bool {
	with_run(|r| r.violation.is_some())
}

/// Is this run (also) deciding the given property
pub fn deciding(property: &str) -> bool {
	with_run(|r| r.property == property)
}

#[macro_export]
macro_rules! check {
	($cond:expr, $kind:expr, $($arg:tt)*) => {
		if !$cond {
			$crate::violation($kind, format!($($arg)*));
		}
	};
}

pub fn injected_panic() -> ! {
	count("fault:panic_in_callback");
	ev!("** injected panic");
	std::panic::panic_any(INJECTED_PANIC)
}

pub enum Outcome<R> {
	Ok(R),
	InjectedPanic,
	/// The library panicked on its own accord
	Panicked(String),
}

/// Runs a piece of the program, catching panics crossing it.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Outcome<R> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => Outcome::Ok(r),
		Err(payload) => {
			if payload.downcast_ref::<&'static str>().is_some_and(|s| *s == INJECTED_PANIC) {
				Outcome::InjectedPanic
			} else {
				let message = with_run(|r| r.last_panic.take()).unwrap_or_else(|| "panic".into());
				Outcome::Panicked(message)
			}
		}
	}
}

/// As `guarded`, but any panic that wasn't injected is a violation.
pub fn step<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
	match guarded(f) {
		Outcome::Ok(r) => Some(r),
		Outcome::InjectedPanic => None,
		Outcome::Panicked(message) => {
			violation(format!("panic:{}", panic_signature(&message)), format!("{what} panicked: {message}"));
			None
		}
	}
}

/// Line numbers are not part of a signature
pub fn panic_signature(message: &str) -> String {
	message.chars().filter(|c| !c.is_ascii_digit()).take(80).collect()
}

struct SchedDecider;

impl sim::Decider for SchedDecider {
	fn choose(&mut self, _step: u64, current: Option<usize>, runnable: &[usize]) -> usize {
		with_run(|r| {
			// options: index 0 is the default (keep going, or lowest id)
			let default = current.unwrap_or(runnable[0]);
			let others: Vec<usize> = runnable.iter().copied().filter(|t| *t != default).collect();
			let one_in = r.preempt_one_in;
			let forced = current.is_none();
			let n = others.len() as u32 + 1;
			let choice = r.sched.below_with(n, |rng| {
				if forced || (one_in > 0 && rng.next() % one_in as u64 == 0) {
					(rng.next() % n as u64) as u32
				} else {
					0
				}
			});
			if choice == 0 {
				default
			} else {
				*r.counters.entry("sched:preemptions").or_insert(0) += 1;
				others[choice as usize - 1]
			}
		})
	}
}

pub struct RunResult {
	pub violation: Option<Violation>,
	pub choices: Choices,
	pub log: Vec<String>,
	pub hash: u64,
	pub events: u64,
	pub counters: BTreeMap<&'static str, u64>,
	pub sim_time_ms: u64,
	pub stats: sim::SimStats,
}

pub enum Source {
	Seed(u64),
	Replay(Choices, u64),
}

fn on_fatal(message: &str) {
	// The process ends right after this, the driver picks the line up.
	// No locks are assumed to be available.
	let line = format!("FATAL {message}\n");
	if std::env::var_os("RXSIM_DEBUG").is_some() {
		eprintln!("{}", std::backtrace::Backtrace::force_capture());
	}
	unsafe extern "C" {
		fn write(fd: i32, buf: *const u8, count: usize) -> isize;
	}
	if let Ok(guard) = RUN.try_lock()
		&& let Some(run) = guard.as_ref()
		&& run.log_enabled
	{
		for entry in run.log.iter() {
			let text = format!("LOG {}\n", entry.replace('\n', " "));
			unsafe { write(1, text.as_ptr(), text.len()) };
		}
	}
	unsafe { write(1, line.as_ptr(), line.len()) };
}

pub fn install() {
	sim::set_fatal_hook(on_fatal);
	std::panic::set_hook(Box::new(|info| {
		let message = if let Some(s) = info.payload().downcast_ref::<&'static str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"non-string panic".to_string()
		};
		if message == INJECTED_PANIC {
			return;
		}
		let location = info
			.location()
			.map(|l| {
				let file = l.file();
				let file = file.rsplit_once("/crates/").map(|(_, f)| f).unwrap_or(file);
				format!("{}:{}", file, l.line())
			})
			.unwrap_or_default();
		if std::env::var_os("RXSIM_DEBUG").is_some() {
			eprintln!("panic: {message} at {location}");
			eprintln!("{}", std::backtrace::Backtrace::force_capture());
		}
		if let Ok(mut guard) = RUN.try_lock()
			&& let Some(run) = guard.as_mut()
		{
			run.last_panic = Some(format!("{message} at {location}"));
		}
	}));
}

/// Executes one run on a fresh OS thread.
pub fn execute(world: fn(), property: &str, source: Source, log_enabled: bool) -> RunResult {
	let (ops, sched, hash_seed) = match source {
		Source::Seed(seed) => (
			Stream::from_seed(mix(seed, 1), 'o'),
			Stream::from_seed(mix(seed, 2), 's'),
			mix(seed, 3),
		),
		Source::Replay(choices, hash_seed) => (
			Stream::from_choices(choices.ops, 'o'),
			Stream::from_choices(choices.sched, 's'),
			hash_seed,
		),
	};
	HASH_SEED.store(hash_seed, Ordering::Relaxed);
	*guard() = Some(RunState {
		ops,
		sched,
		preempt_one_in: 0,
		property: property.to_string(),
		violation: None,
		log: Vec::new(),
		log_enabled,
		hash: 0xcbf2_9ce4_8422_2325,
		events: 0,
		counters: BTreeMap::new(),
		sim_time_ms: 0,
		last_panic: None,
		depth: 0,
	});
	let stats = std::thread::Builder::new()
		.stack_size(16 << 20)
		.spawn(move || {
			let (_, stats) = sim::run(Box::new(SchedDecider), 400_000, || {
				step("the run", world);
			});
			stats
		})
		.expect("spawn run thread")
		.join()
		.unwrap_or_default();
	let state = guard().take().expect("run state");
	RunResult {
		violation: state.violation,
		choices: Choices { ops: state.ops.choices, sched: state.sched.choices },
		log: state.log,
		hash: state.hash ^ stats.interleaving_hash,
		events: state.events,
		counters: state.counters,
		sim_time_ms: state.sim_time_ms,
		stats,
	}
}

pub fn hash_seed_of(seed: u64) -> u64 {
	mix(seed, 3)
}

/// Runs closures as simulated threads under the seeded scheduler.
pub fn threads(preempt_one_in: u32, closures: Vec<Box<dyn FnOnce() + Send>>) {
	with_run(|r| r.preempt_one_in = preempt_one_in);
	count_by("sched:threads", closures.len() as u64);
	sim::parallel(closures);
}
