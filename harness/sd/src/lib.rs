//! What reads messages and compares what comes out of them: apart from the rest of the harness, because it contains
//! the generic code of the crate under test and is compiled like it.

#[cfg(feature = "serde")]
pub mod errors;
pub mod model;
#[cfg(feature = "serde")]
pub mod sd;
