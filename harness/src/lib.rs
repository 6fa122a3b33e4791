//! Monitors and workloads for varlen.
pub mod ctx;
pub mod elem;
pub mod galloc;
#[cfg(all(not(miri), target_pointer_width = "64"))]
pub mod giant;
pub mod interior;
#[cfg(not(miri))]
pub mod many;
pub mod objs;
pub mod rng;
pub mod run;
pub mod spec;
pub mod special;
pub mod sys;
pub mod threads;
pub mod tok;
pub mod world;
pub mod structaid;
