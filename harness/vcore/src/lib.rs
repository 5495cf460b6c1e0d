//! Property-testing engine shared by all checks: a choice-sequence decoder
//! (`Src`), a proptest strategy over choice sequences with its own shrinker,
//! a sharded fixed-work runner, replay files and evidence files.
//!
//! This crate does not depend on the code under test.
pub mod alloc;
pub mod gen;
pub mod geo;
pub mod runner;
pub mod src;
pub mod util;

pub use runner::{main, Ctx, Spec};
pub use src::Src;
