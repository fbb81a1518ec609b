//! What the checks of zero-copy properties share.
pub mod guard;
pub mod types;
