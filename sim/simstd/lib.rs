//! `simstd`: the seam through which the crates under test reach threads-related
//! parts of the standard library.
//!
//! This crate re-exports the real `std` unchanged, except for the
//! synchronization primitives the code under test is built on: `Mutex`,
//! `RwLock` and the atomics. Crates under /repo/crates are compiled with
//! `--extern std=libsimstd.rlib`, so their *unmodified sources* end up using
//! the types defined here.
//!
//! Outside of a simulation every primitive behaves exactly like the real one.
//! Inside of a simulation (a task context is set on the current OS thread)
//! every operation on them is a *sync point*, where a seeded decider picks
//! which simulated thread continues. Exactly one simulated thread runs at any
//! time. Blocking, self deadlocks and lock cycles are detected deterministically.
#![no_std]
#![allow(clippy::all, deprecated)]

extern crate std as real_std;

pub use real_std::*;

pub mod simulator;

pub mod sync {
	pub use real_std::sync::*;

	pub use crate::simulator::locks::{
		Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard,
	};

	pub mod atomic {
		pub use crate::simulator::atomics::{
			AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicU8, AtomicU32, AtomicU64, AtomicUsize,
		};
		pub use real_std::sync::atomic::*;
	}
}
