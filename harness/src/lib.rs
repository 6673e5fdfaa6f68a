//! Instrumented user types for quick_cache, and the sequential driver.
pub mod rng;
pub mod seq;
pub mod types;
pub mod watch;
