//! Deterministic simulation kit: one seed decides every choice of a run.
pub mod draw;
pub mod driver;
pub mod run;

pub use draw::*;
pub use driver::*;
pub use run::*;
