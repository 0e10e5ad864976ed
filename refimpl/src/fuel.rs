//! How often the library may call back into the harness (its random sources, hashes, ciphers and
//! curves) until the case counts as running away. A count and not a time, so it repeats exactly.
use std::cell::Cell;

/// what a case gets if it asks for nothing else
pub const CASE: u64 = 10_000_000;

thread_local! { static FUEL: Cell<u64> = const { Cell::new(u64::MAX) }; }
pub fn fuel(n: u64) { FUEL.with(|f| f.set(n)); }
pub fn burn() { burn_by(1); }
pub fn burn_by(k: u64) {
    let n = FUEL.with(|f| { let n = f.get(); if n != u64::MAX { f.set(n.saturating_sub(k)); } n });
    if n == 0 { fuel(u64::MAX); panic!("the call runs away"); }
}
