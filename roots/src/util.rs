//! entry points: prime queries
use algebraics::util::*;
pub fn primes(a: u32, b: i32) {
    is_prime_u32(a);
    let _ = prev_prime_u32(a);
    let _ = next_prime_u32(a);
    let _ = prev_prime_i32(b);
    let _ = next_prime_i32(b);
}
