//! Shared monitoring machinery: reference models, generators, recorders, the
//! adversarial re-solver and the verdict/evidence writer.
pub mod big;
pub mod circ;
pub mod cpus;
pub mod ctx;
pub mod curve;
pub mod ecprog;
pub mod exact;
pub mod logc;
pub mod field;
pub mod forge;
pub mod par;
pub mod proofs;
pub mod r1cs;
pub mod refhash;
pub mod rng;
pub mod steps;
pub mod tiny;

pub use big::*;
pub use ctx::*;
pub use curve::*;
pub use field::*;
pub use rng::*;
