//! Executable contracts.  Every case is a vector of integers, so a failing case can be replayed from its text.
pub mod g;
pub mod traits;
#[cfg(feature = "interval")]
pub mod interval;
#[cfg(feature = "interval")]
pub mod trans;
#[cfg(feature = "mod_int")]
pub mod mod_int;
#[cfg(feature = "poly")]
pub mod poly;
#[cfg(feature = "util")]
pub mod util;
#[cfg(feature = "alg")]
pub mod alg;
