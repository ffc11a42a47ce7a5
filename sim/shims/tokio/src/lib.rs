//! tokio under simulation: the real sync / io / fs / macro code, with runtime, tasks, time, processes and signals
//! provided by the simulator.
#![allow(clippy::all)]
pub use tokio_real::*;

pub mod process;
pub mod runtime;
pub mod signal;
pub mod task;
pub mod time;

pub use task::spawn;
