//! Deterministic simulation core: choice tapes, fork-isolated runs, shrinking, replay, evidence,
//! cooperative fibers and a simulated operating system.
pub mod fiber;
pub mod heap;
pub mod json;
pub mod os;
pub mod rng;
pub mod runner;
pub mod sched;
pub mod tape;

pub use runner::{stat, stat_add, trace_enabled};
pub use tape::{ch, Chooser};
