//! `std` as the simulated program sees it: threads, locks, channels, atomics, clocks, arguments
//! and process exit belong to the simulator, everything else is the real `std`.
pub use std::*;

pub mod env;
pub mod process;
pub mod sync;
pub mod thread;
pub mod time;
