//! Simulated worlds over the Bevy part of the library: a whole app, its
//! schedules, clocks and commands, frame by frame.
mod clocks;
#[path = "../../rxsim/src/common.rs"]
mod common;
mod entities;
mod sources;
mod stage;

use simkit::Check;

fn main() -> ! {
	let mut checks: Vec<Check> = Vec::new();
	entities::register(&mut checks);
	sources::register(&mut checks);
	clocks::register(&mut checks);
	simkit::main(checks)
}
