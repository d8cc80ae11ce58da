//! Executable specification of the Sia data formats and derivations, independent of the crate under test.
pub mod blake;
pub mod ed;
pub mod sha;
pub mod rng;
pub mod val;
pub mod refenc;
pub mod refjson;
pub mod refhash;
