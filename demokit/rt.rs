//! native stand-ins for the harness runtime: deterministic pseudo-random inputs and plain assertions
use std::cell::Cell;
thread_local!(static X: Cell<u64> = Cell::new(0x9e3779b97f4a7c15));
fn next() -> u64 { X.with(|c| { let mut x = c.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; c.set(x); x }) }
pub fn any_u8() -> u8 { next() as u8 } pub fn any_u16() -> u16 { next() as u16 } pub fn any_u32() -> u32 { next() as u32 } pub fn any_u64() -> u64 { next() }
pub fn any_f64() -> f64 { (next() % 1000) as f64 }
pub fn any_bool() -> bool { next() & 1 == 1 }
pub fn choice(n: usize) -> usize { (next() % n as u64) as usize }
pub fn assume(b: bool) { if !b { stop() } }
#[track_caller] pub fn check(b: bool, id: u32) { assert!(b, "check {id}") }
pub fn cover(_: u32) {} pub fn obs(_: u64, _: u64) {}
pub fn stop() -> ! { std::process::exit(0) }
