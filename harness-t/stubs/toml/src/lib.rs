//! Stands in for `toml` 0.8, which is not available offline, by 0.9.
pub use real::*;
