//! Documents of every nesting shape, with where in them everything is.
pub mod model;
pub mod run;
pub use musli;
