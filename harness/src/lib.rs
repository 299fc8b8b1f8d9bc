//! Property-based testing engine used by every check (see /verif/DESIGN.md).
#![allow(clippy::all)]

pub mod engine;
pub mod exact;
pub mod gens;
pub mod geo;
pub mod objs;
pub mod seqs;

pub use engine::*;
pub use exact::*;
pub use gens::*;
pub use geo::*;
pub use geos_rs::verif_api as g;
