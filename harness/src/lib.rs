//! Adapters between the reference side (canonical integer points) and rgeometry:
//! exact embeddings of canonical coordinates into every scalar type, an
//! operation-counting scalar, and a draw-counting random source.
pub mod cnt;
pub mod giant;
pub mod native;
pub mod rng;
pub mod scalar;
pub mod shapes;

pub use cnt::{budget, Cnt};
pub use rng::Rg;
pub use scalar::*;

pub use vcore::geo::{self, P};
pub use vcore::runner::{catching, Ctx, Part, Spec};
pub use vcore::{ensure, ensure_eq, gen, Src};

#[global_allocator]
static ALLOC: vcore::alloc::Counting = vcore::alloc::Counting;

pub type R = Result<(), String>;
