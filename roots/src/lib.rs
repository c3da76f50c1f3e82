#![allow(dead_code)]
#[cfg(feature = "interval")]
pub mod interval;
#[cfg(feature = "traits")]
pub mod traits;
#[cfg(feature = "mod_int")]
pub mod mod_int;
#[cfg(feature = "util")]
pub mod util;
#[cfg(feature = "poly")]
pub mod poly;
#[cfg(feature = "alg")]
pub mod alg;
