pub use nrbfsd::model;
#[cfg(feature = "serde")]
pub use nrbfsd::{errors, sd};

pub mod alloc;
pub mod cover;
pub mod dict;
pub mod encode;
pub mod equal;
pub mod faults;
pub mod generate;
pub mod known;
pub mod mutate;
pub mod props;
pub mod refdec;
pub mod run;
pub mod scale;
pub mod tape;
#[cfg(feature = "serde")]
pub mod sdprops;
