//! The cooperative, seeded thread scheduler behind the `sync` shims.
use real_std::boxed::Box;
use real_std::cell::Cell;
use real_std::prelude::rust_2024::*;
use real_std::string::String;
use real_std::sync::{Arc, Condvar, Mutex as RealMutex, MutexGuard as RealGuard};
use real_std::vec::Vec;

/// Exit codes a simulated process ends with, when it can not continue.
pub const EXIT_DEADLOCK: i32 = 87;
pub const EXIT_LIVELOCK: i32 = 88;

/// Decides which runnable task gets to continue at a sync point.
/// `current` is `None` when the current task can not continue.
pub trait Decider: Send {
	fn choose(&mut self, step: u64, current: Option<usize>, runnable: &[usize]) -> usize;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
	Runnable,
	Blocked(usize),
	Joining(usize),
	Finished,
}

struct Inner {
	decider: Box<dyn Decider>,
	status: Vec<Status>,
	current: usize,
	step: u64,
	max_steps: u64,
	switches: u64,
	contended: u64,
	blocked: u64,
	/// Number of tasks the main task (0) waits for
	live_children: usize,
	/// Hash of the executed interleaving
	hash: u64,
}

pub struct Sim {
	inner: RealMutex<Inner>,
	cvs: Vec<Condvar>,
}

const MAX_TASKS: usize = 8;

#[derive(Clone, Copy, Debug, Default)]
pub struct SimStats {
	pub steps: u64,
	pub switches: u64,
	pub contended: u64,
	pub blocked: u64,
	pub interleaving_hash: u64,
}

real_std::thread_local! {
	static CURRENT: Cell<(*const Sim, usize)> = const { Cell::new((core::ptr::null(), 0)) };
}

#[inline]
fn current() -> Option<(&'static Sim, usize)> {
	let (sim, id) = CURRENT.try_with(|c| c.get()).ok()?;
	if sim.is_null() {
		None
	} else {
		// The Sim outlives every task running in it, `run` joins all of them
		Some((unsafe { &*sim }, id))
	}
}

/// Called right before the process is ended because the execution can not
/// continue (deadlock, livelock).
static FATAL_HOOK: RealMutex<Option<fn(&str)>> = RealMutex::new(None);

pub fn set_fatal_hook(hook: fn(&str)) {
	*FATAL_HOOK.lock().unwrap_or_else(|p| p.into_inner()) = Some(hook);
}

fn fatal(code: i32, message: String) -> ! {
	let hook = *FATAL_HOOK.lock().unwrap_or_else(|p| p.into_inner());
	if let Some(hook) = hook {
		hook(&message);
	}
	unsafe extern "C" {
		fn _exit(code: i32) -> !;
	}
	unsafe { _exit(code) }
}

impl Sim {
	fn lock(&self) -> RealGuard<'_, Inner> {
		self.inner.lock().unwrap_or_else(|p| p.into_inner())
	}

	/// Hand the baton to whoever the decider picks. Returns once `me` is the
	/// current one again (unless it finished).
	fn reschedule<'a>(&'a self, mut inner: RealGuard<'a, Inner>, me: usize) {
		inner.step += 1;
		if inner.step > inner.max_steps {
			let step = inner.step;
			drop(inner);
			fatal(EXIT_LIVELOCK, format!("livelock: no quiescence after {step} sync points"));
		}
		let runnable: Vec<usize> = inner
			.status
			.iter()
			.enumerate()
			.filter(|(_, s)| **s == Status::Runnable)
			.map(|(i, _)| i)
			.collect();
		if runnable.is_empty() {
			let status = format!("{:?}", inner.status.iter().map(|s| match s {
				Status::Runnable => "runnable",
				Status::Blocked(_) => "blocked on a lock",
				Status::Joining(_) => "joining",
				Status::Finished => "finished",
			}).collect::<Vec<_>>());
			drop(inner);
			fatal(EXIT_DEADLOCK, format!("deadlock: no simulated thread can continue: {status}"));
		}
		let me_runnable = inner.status[me] == Status::Runnable;
		let next = if runnable.len() == 1 {
			runnable[0]
		} else {
			let step = inner.step;
			let choice = inner.decider.choose(step, me_runnable.then_some(me), &runnable);
			if runnable.contains(&choice) {
				choice
			} else if me_runnable {
				me
			} else {
				runnable[0]
			}
		};
		let step = inner.step;
		if next != me {
			inner.switches += 1;
			let mut h = inner.hash ^ (step.wrapping_mul(0x9E3779B97F4A7C15)) ^ (next as u64);
			h = (h ^ (h >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
			inner.hash = h;
			inner.current = next;
			self.cvs[next].notify_one();
			if inner.status[me] != Status::Finished {
				while inner.current != me {
					inner = self.cvs[me].wait(inner).unwrap_or_else(|p| p.into_inner());
				}
			}
		}
	}
}

/// A point at which another simulated thread may be scheduled.
#[inline]
pub fn sync_point() {
	if let Some((sim, me)) = current() {
		let inner = sim.lock();
		if inner.live_children == 0 {
			// Single threaded phase, nothing to decide. Still counted.
			let mut inner = inner;
			inner.step += 1;
			if inner.step > inner.max_steps {
				let step = inner.step;
				drop(inner);
				fatal(EXIT_LIVELOCK, format!("livelock: no quiescence after {step} sync points"));
			}
			return;
		}
		sim.reschedule(inner, me);
	}
}

pub fn in_simulation() -> bool {
	current().is_some()
}

/// The id of the simulated thread, 0 is the main one.
pub fn current_task() -> usize {
	current().map(|c| c.1).unwrap_or(0)
}

pub fn current_step() -> u64 {
	current().map(|c| c.0.lock().step).unwrap_or(0)
}

/// Runs `main` as task 0 of a simulation on the current OS thread.
pub fn run<R>(decider: Box<dyn Decider>, max_steps: u64, main: impl FnOnce() -> R) -> (R, SimStats) {
	let sim = Arc::new(Sim {
		inner: RealMutex::new(Inner {
			decider,
			status: vec![Status::Runnable],
			current: 0,
			step: 0,
			max_steps,
			switches: 0,
			contended: 0,
			blocked: 0,
			live_children: 0,
			hash: 0,
		}),
		cvs: (0..MAX_TASKS).map(|_| Condvar::new()).collect(),
	});
	struct Reset;
	impl Drop for Reset {
		fn drop(&mut self) {
			let _ = CURRENT.try_with(|c| c.set((core::ptr::null(), 0)));
		}
	}
	CURRENT.with(|c| c.set((Arc::as_ptr(&sim), 0)));
	let result = {
		let _reset = Reset;
		main()
	};
	let inner = sim.lock();
	let stats = SimStats {
		steps: inner.step,
		switches: inner.switches,
		contended: inner.contended,
		blocked: inner.blocked,
		interleaving_hash: inner.hash,
	};
	drop(inner);
	(result, stats)
}

/// Runs the given closures as simulated threads, and returns once all of them
/// have finished. Must be called from task 0.
pub fn parallel(closures: Vec<Box<dyn FnOnce() + Send>>) {
	let (sim, me) = current().expect("parallel needs a simulation");
	assert_eq!(me, 0);
	let count = closures.len();
	assert!(count < MAX_TASKS);
	let base = {
		let mut inner = sim.lock();
		let base = inner.status.len();
		// Finished task slots are reused
		inner.status.truncate(1);
		let _ = base;
		for _ in 0..count {
			inner.status.push(Status::Runnable);
		}
		inner.live_children = count;
		inner.status[0] = Status::Joining(count);
		1
	};
	let sim_address = sim as *const Sim as usize;
	let mut handles = Vec::new();
	for (index, closure) in closures.into_iter().enumerate() {
		let id = base + index;
		handles.push(
			real_std::thread::Builder::new()
				.stack_size(2 << 20)
				.spawn(move || {
					let sim = unsafe { &*(sim_address as *const Sim) };
					CURRENT.with(|c| c.set((sim as *const Sim, id)));
					{
						let mut inner = sim.lock();
						while inner.current != id {
							inner = sim.cvs[id].wait(inner).unwrap_or_else(|p| p.into_inner());
						}
					}
					let result = real_std::panic::catch_unwind(real_std::panic::AssertUnwindSafe(closure));
					{
						let mut inner = sim.lock();
						inner.status[id] = Status::Finished;
						inner.live_children -= 1;
						if inner.live_children == 0 {
							inner.status[0] = Status::Runnable;
						}
						sim.reschedule(inner, id);
					}
					CURRENT.with(|c| c.set((core::ptr::null(), 0)));
					result
				})
				.expect("spawning a simulated thread"),
		);
	}
	sim.reschedule(sim.lock(), 0);
	for handle in handles {
		if let Ok(Err(payload)) | Err(payload) = handle.join() {
			real_std::panic::resume_unwind(payload);
		}
	}
}

fn block_on(address: usize) {
	if let Some((sim, me)) = current() {
		let mut inner = sim.lock();
		inner.status[me] = Status::Blocked(address);
		inner.blocked += 1;
		sim.reschedule(inner, me);
	}
}

fn wake(address: usize) {
	if let Some((sim, _)) = current() {
		let mut inner = sim.lock();
		if inner.live_children == 0 {
			return;
		}
		for status in inner.status.iter_mut() {
			if *status == Status::Blocked(address) {
				*status = Status::Runnable;
			}
		}
	}
}

fn note_contention() {
	if let Some((sim, _)) = current() {
		sim.lock().contended += 1;
	}
}

fn owner_tag() -> usize {
	current().map(|c| c.1 + 1).unwrap_or(0)
}

fn self_deadlock(what: &str) -> ! {
	fatal(
		EXIT_DEADLOCK,
		format!("deadlock: a thread tried to acquire a {what} it already holds"),
	)
}

pub mod locks {
	use super::*;
	use core::fmt;
	use core::mem::ManuallyDrop;
	use core::ops::{Deref, DerefMut};
	use real_std::sync::atomic::{AtomicUsize, Ordering};
	use real_std::sync::{
		LockResult, Mutex as RealMutex, MutexGuard as RealMutexGuard, PoisonError,
		RwLock as RealRwLock, RwLockReadGuard as RealReadGuard, RwLockWriteGuard as RealWriteGuard,
		TryLockError, TryLockResult,
	};

	pub struct Mutex<T: ?Sized> {
		owner: AtomicUsize,
		inner: RealMutex<T>,
	}

	pub struct MutexGuard<'a, T: ?Sized + 'a> {
		owner: &'a AtomicUsize,
		address: usize,
		inner: ManuallyDrop<RealMutexGuard<'a, T>>,
	}

	impl<T> Mutex<T> {
		pub const fn new(value: T) -> Self {
			Self { owner: AtomicUsize::new(0), inner: RealMutex::new(value) }
		}

		pub fn into_inner(self) -> LockResult<T> {
			self.inner.into_inner()
		}
	}

	impl<T: ?Sized> Mutex<T> {
		fn address(&self) -> usize {
			&self.owner as *const AtomicUsize as usize
		}

		fn guard<'a>(&'a self, inner: RealMutexGuard<'a, T>) -> MutexGuard<'a, T> {
			self.owner.store(owner_tag(), Ordering::Relaxed);
			MutexGuard { owner: &self.owner, address: self.address(), inner: ManuallyDrop::new(inner) }
		}

		pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
			if !in_simulation() {
				return match self.inner.lock() {
					Ok(g) => Ok(self.guard(g)),
					Err(p) => Err(PoisonError::new(self.guard(p.into_inner()))),
				};
			}
			sync_point();
			loop {
				match self.inner.try_lock() {
					Ok(g) => return Ok(self.guard(g)),
					Err(TryLockError::Poisoned(p)) => {
						return Err(PoisonError::new(self.guard(p.into_inner())));
					}
					Err(TryLockError::WouldBlock) => {
						if self.owner.load(Ordering::Relaxed) == owner_tag() {
							self_deadlock("Mutex");
						}
						note_contention();
						block_on(self.address());
					}
				}
			}
		}

		pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
			sync_point();
			match self.inner.try_lock() {
				Ok(g) => Ok(self.guard(g)),
				Err(TryLockError::Poisoned(p)) => {
					Err(TryLockError::Poisoned(PoisonError::new(self.guard(p.into_inner()))))
				}
				Err(TryLockError::WouldBlock) => {
					note_contention();
					Err(TryLockError::WouldBlock)
				}
			}
		}

		pub fn is_poisoned(&self) -> bool {
			self.inner.is_poisoned()
		}

		pub fn clear_poison(&self) {
			self.inner.clear_poison()
		}

		pub fn get_mut(&mut self) -> LockResult<&mut T> {
			self.inner.get_mut()
		}
	}

	impl<T> From<T> for Mutex<T> {
		fn from(value: T) -> Self {
			Self::new(value)
		}
	}

	impl<T: Default> Default for Mutex<T> {
		fn default() -> Self {
			Self::new(T::default())
		}
	}

	impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			self.inner.fmt(f)
		}
	}

	impl<T: ?Sized> Drop for MutexGuard<'_, T> {
		fn drop(&mut self) {
			self.owner.store(0, Ordering::Relaxed);
			unsafe { ManuallyDrop::drop(&mut self.inner) };
			wake(self.address);
		}
	}

	impl<T: ?Sized> Deref for MutexGuard<'_, T> {
		type Target = T;
		fn deref(&self) -> &T {
			&self.inner
		}
	}

	impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
		fn deref_mut(&mut self) -> &mut T {
			&mut self.inner
		}
	}

	impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			(**self).fmt(f)
		}
	}

	impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			(**self).fmt(f)
		}
	}

	pub struct RwLock<T: ?Sized> {
		owner: AtomicUsize,
		inner: RealRwLock<T>,
	}

	pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
		address: usize,
		inner: ManuallyDrop<RealReadGuard<'a, T>>,
	}

	pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
		owner: &'a AtomicUsize,
		address: usize,
		inner: ManuallyDrop<RealWriteGuard<'a, T>>,
	}

	impl<T> RwLock<T> {
		pub const fn new(value: T) -> Self {
			Self { owner: AtomicUsize::new(0), inner: RealRwLock::new(value) }
		}

		pub fn into_inner(self) -> LockResult<T> {
			self.inner.into_inner()
		}
	}

	impl<T: ?Sized> RwLock<T> {
		fn address(&self) -> usize {
			&self.owner as *const AtomicUsize as usize
		}

		fn write_guard<'a>(&'a self, inner: RealWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
			self.owner.store(owner_tag(), Ordering::Relaxed);
			RwLockWriteGuard {
				owner: &self.owner,
				address: self.address(),
				inner: ManuallyDrop::new(inner),
			}
		}

		fn read_guard<'a>(&'a self, inner: RealReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
			RwLockReadGuard { address: self.address(), inner: ManuallyDrop::new(inner) }
		}

		pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
			if !in_simulation() {
				return match self.inner.read() {
					Ok(g) => Ok(self.read_guard(g)),
					Err(p) => Err(PoisonError::new(self.read_guard(p.into_inner()))),
				};
			}
			sync_point();
			loop {
				match self.inner.try_read() {
					Ok(g) => return Ok(self.read_guard(g)),
					Err(TryLockError::Poisoned(p)) => {
						return Err(PoisonError::new(self.read_guard(p.into_inner())));
					}
					Err(TryLockError::WouldBlock) => {
						if self.owner.load(Ordering::Relaxed) == owner_tag() {
							self_deadlock("RwLock");
						}
						note_contention();
						block_on(self.address());
					}
				}
			}
		}

		pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
			sync_point();
			match self.inner.try_read() {
				Ok(g) => Ok(self.read_guard(g)),
				Err(TryLockError::Poisoned(p)) => {
					Err(TryLockError::Poisoned(PoisonError::new(self.read_guard(p.into_inner()))))
				}
				Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
			}
		}

		pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
			if !in_simulation() {
				return match self.inner.write() {
					Ok(g) => Ok(self.write_guard(g)),
					Err(p) => Err(PoisonError::new(self.write_guard(p.into_inner()))),
				};
			}
			sync_point();
			loop {
				match self.inner.try_write() {
					Ok(g) => return Ok(self.write_guard(g)),
					Err(TryLockError::Poisoned(p)) => {
						return Err(PoisonError::new(self.write_guard(p.into_inner())));
					}
					Err(TryLockError::WouldBlock) => {
						if self.owner.load(Ordering::Relaxed) == owner_tag() {
							self_deadlock("RwLock");
						}
						note_contention();
						block_on(self.address());
					}
				}
			}
		}

		pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
			sync_point();
			match self.inner.try_write() {
				Ok(g) => Ok(self.write_guard(g)),
				Err(TryLockError::Poisoned(p)) => {
					Err(TryLockError::Poisoned(PoisonError::new(self.write_guard(p.into_inner()))))
				}
				Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
			}
		}

		pub fn is_poisoned(&self) -> bool {
			self.inner.is_poisoned()
		}

		pub fn clear_poison(&self) {
			self.inner.clear_poison()
		}

		pub fn get_mut(&mut self) -> LockResult<&mut T> {
			self.inner.get_mut()
		}
	}

	impl<T> From<T> for RwLock<T> {
		fn from(value: T) -> Self {
			Self::new(value)
		}
	}

	impl<T: Default> Default for RwLock<T> {
		fn default() -> Self {
			Self::new(T::default())
		}
	}

	impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			self.inner.fmt(f)
		}
	}

	impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
		fn drop(&mut self) {
			unsafe { ManuallyDrop::drop(&mut self.inner) };
			wake(self.address);
		}
	}

	impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
		type Target = T;
		fn deref(&self) -> &T {
			&self.inner
		}
	}

	impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			(**self).fmt(f)
		}
	}

	impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
		fn drop(&mut self) {
			self.owner.store(0, Ordering::Relaxed);
			unsafe { ManuallyDrop::drop(&mut self.inner) };
			wake(self.address);
		}
	}

	impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
		type Target = T;
		fn deref(&self) -> &T {
			&self.inner
		}
	}

	impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
		fn deref_mut(&mut self) -> &mut T {
			&mut self.inner
		}
	}

	impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			(**self).fmt(f)
		}
	}
}

pub mod atomics {
	use super::sync_point;
	use core::fmt;
	use real_std::sync::atomic::Ordering;

	macro_rules! shim_atomic {
		($name:ident, $value:ty, { $($extra:tt)* }) => {
			#[repr(transparent)]
			pub struct $name(real_std::sync::atomic::$name);

			impl $name {
				pub const fn new(value: $value) -> Self {
					Self(real_std::sync::atomic::$name::new(value))
				}
				#[inline]
				pub fn load(&self, order: Ordering) -> $value {
					sync_point();
					self.0.load(order)
				}
				#[inline]
				pub fn store(&self, value: $value, order: Ordering) {
					sync_point();
					self.0.store(value, order)
				}
				#[inline]
				pub fn swap(&self, value: $value, order: Ordering) -> $value {
					sync_point();
					self.0.swap(value, order)
				}
				#[inline]
				pub fn compare_exchange(
					&self,
					current: $value,
					new: $value,
					success: Ordering,
					failure: Ordering,
				) -> Result<$value, $value> {
					sync_point();
					self.0.compare_exchange(current, new, success, failure)
				}
				#[inline]
				pub fn compare_exchange_weak(
					&self,
					current: $value,
					new: $value,
					success: Ordering,
					failure: Ordering,
				) -> Result<$value, $value> {
					self.compare_exchange(current, new, success, failure)
				}
				#[inline]
				pub fn fetch_update(
					&self,
					success: Ordering,
					failure: Ordering,
					f: impl FnMut($value) -> Option<$value>,
				) -> Result<$value, $value> {
					sync_point();
					self.0.try_update(success, failure, f)
				}
				pub fn get_mut(&mut self) -> &mut $value {
					self.0.get_mut()
				}
				pub fn into_inner(self) -> $value {
					self.0.into_inner()
				}
				$($extra)*
			}

			impl Default for $name {
				fn default() -> Self {
					Self::new(<$value>::default())
				}
			}

			impl From<$value> for $name {
				fn from(value: $value) -> Self {
					Self::new(value)
				}
			}

			impl fmt::Debug for $name {
				fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
					self.0.fmt(f)
				}
			}
		};
	}

	macro_rules! int_atomic {
		($name:ident, $value:ty) => {
			shim_atomic!($name, $value, {
				#[inline]
				pub fn fetch_add(&self, value: $value, order: Ordering) -> $value {
					sync_point();
					self.0.fetch_add(value, order)
				}
				#[inline]
				pub fn fetch_sub(&self, value: $value, order: Ordering) -> $value {
					sync_point();
					self.0.fetch_sub(value, order)
				}
				#[inline]
				pub fn fetch_max(&self, value: $value, order: Ordering) -> $value {
					sync_point();
					self.0.fetch_max(value, order)
				}
				#[inline]
				pub fn fetch_min(&self, value: $value, order: Ordering) -> $value {
					sync_point();
					self.0.fetch_min(value, order)
				}
				#[inline]
				pub fn fetch_and(&self, value: $value, order: Ordering) -> $value {
					sync_point();
					self.0.fetch_and(value, order)
				}
				#[inline]
				pub fn fetch_or(&self, value: $value, order: Ordering) -> $value {
					sync_point();
					self.0.fetch_or(value, order)
				}
				#[inline]
				pub fn fetch_xor(&self, value: $value, order: Ordering) -> $value {
					sync_point();
					self.0.fetch_xor(value, order)
				}
			});
		};
	}

	shim_atomic!(AtomicBool, bool, {
		#[inline]
		pub fn fetch_and(&self, value: bool, order: Ordering) -> bool {
			sync_point();
			self.0.fetch_and(value, order)
		}
		#[inline]
		pub fn fetch_or(&self, value: bool, order: Ordering) -> bool {
			sync_point();
			self.0.fetch_or(value, order)
		}
		#[inline]
		pub fn fetch_xor(&self, value: bool, order: Ordering) -> bool {
			sync_point();
			self.0.fetch_xor(value, order)
		}
		#[inline]
		pub fn fetch_not(&self, order: Ordering) -> bool {
			sync_point();
			self.0.fetch_xor(true, order)
		}
	});
	int_atomic!(AtomicUsize, usize);
	int_atomic!(AtomicIsize, isize);
	int_atomic!(AtomicU8, u8);
	int_atomic!(AtomicU32, u32);
	int_atomic!(AtomicU64, u64);
	int_atomic!(AtomicI32, i32);
	int_atomic!(AtomicI64, i64);
}
