//! The deterministic simulator: recorded choice streams, a cooperative scheduler for real threads,
//! simulated clocks and entropy behind interposed libc symbols, an isolated (forked) run executor,
//! a shrinker and replay files.

pub mod alloc;
pub mod interpose;
pub mod rt;
pub mod runner;
pub mod shm;

pub use alloc::live;
pub use rt::*;
pub use runner::*;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // Separate the fields.
    (h ^ 0xff).wrapping_mul(0x100000001b3)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0x9E3779B97F4A7C15));
    r.next();
    r.next()
}
