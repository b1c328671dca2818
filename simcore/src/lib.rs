//! Deterministic-simulation core shared by the harnesses.
//!
//! One run = one OS thread tree executing under a single choice tape. Every nondeterministic
//! decision of a run (what the workload does next, which thread runs, which fault fires, hash
//! seeds, directory order, read sizes) is one entry of that tape, drawn from a PRNG seeded by
//! VERIF_SEED when searching and read back verbatim when replaying.
pub mod alloc;
pub mod driver;
pub mod interpose;
pub mod json;
pub mod rng;
pub mod sched;
pub mod shrink;
pub mod sim;
