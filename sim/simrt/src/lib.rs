#![feature(thread_local)]
#![allow(clippy::all)]
pub mod arena;
pub mod rng;
pub mod json;
pub mod plan;
pub mod sched;
pub mod interpose;
pub mod tsan;
pub mod run;
pub mod driver;
pub mod lin;

pub use plan::{Op, Plan, Sched};
pub use rng::Rng;
