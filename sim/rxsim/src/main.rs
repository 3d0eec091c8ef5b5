//! Simulated worlds over the runtime agnostic part of the library.
mod adsr;
mod combine;
mod common;
mod contracts;
mod flatten;
mod flatten_live;
mod forest;
mod pipes;
mod retry;
mod scheduler;
mod share;
mod subject_threads;
mod subjects;
mod timing;

use simkit::Check;

fn main() -> ! {
	let mut checks: Vec<Check> = Vec::new();
	scheduler::register(&mut checks);
	subjects::register(&mut checks);
	pipes::register(&mut checks);
	flatten::register(&mut checks);
	combine::register(&mut checks);
	retry::register(&mut checks);
	share::register(&mut checks);
	timing::register(&mut checks);
	contracts::register(&mut checks);
	simkit::main(checks)
}
