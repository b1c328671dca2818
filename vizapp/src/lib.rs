//! The visualizer, unmodified, compiled against the simulated `std` and the recording window.
#![allow(warnings)]
extern crate simstd as std;

include!(concat!(env!("OUT_DIR"), "/root.rs"));
