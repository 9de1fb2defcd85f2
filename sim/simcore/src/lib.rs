//! Deterministic simulator: choice source, virtual clock, task executor, network, file system,
//! thread scheduler, and the run/shrink/replay harness.
pub mod exec;
pub mod fs;
pub mod harness;
pub mod logs;
pub mod net;
pub mod secrets;
pub mod source;
pub mod threads;
pub mod world;

pub use source::Source;
pub use world::*;
