//! P37 the clock and the shared later results that systems are built with (src/std_util.rs, compiled into this crate with a stand-in for the real time)
use crate::rt::*;
use crate::std_util::{AsyncKey, Clock};
use alloc::vec; use alloc::vec::Vec;
use crate::sim::*;
use netsblox_vm::real_time::{time::Duration, OffsetDateTime, UtcOffset};
use netsblox_vm::runtime::{AsyncResult, Key, Precision};

const STEPS: usize = if cfg!(feature = "deep") { 5 } else { 4 };
const LEVELS: [Precision; 3] = [Precision::Low, Precision::Medium, Precision::High];
/// every reading is the real time, or for readings as coarse as the clock allows the one it took last
pub fn clock() {
    let offset = [UtcOffset::UTC, UtcOffset::from_hms(5, 30, 0).unwrap(), UtcOffset::from_hms(-11, 0, -7).unwrap()][choice(3)];
    let cache = [None, Some(0), Some(1), Some(2)][choice(4)];
    let base = OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap();
    // the real time may be any, it may also go back
    let times: Vec<OffsetDateTime> = (0..3 * STEPS + 3).map(|i| {
        let t = base + Duration::seconds([0, 86_399, -5, 40_000_000, 7][i % 5]);
        let ns = any_u32();
        assume(ns < 1_000_000_000);
        t.replace_nanosecond(ns).unwrap()
    }).collect();
    reset();
    world().times = times.clone();
    let c = Clock::new(offset, cache.map(|k: usize| LEVELS[k]));
    let mut last = world().asked;
    check!((last > 0) | cache.is_none());
    for _ in 0..STEPS {
        let k = choice(4);
        let before = world().asked;
        let got = if k == 3 { c.update() } else { c.read(LEVELS[k]) };
        let after = world().asked;
        let old = k < 3 && cache.is_some_and(|x| k <= x);
        // a coarse reading is the one taken last; every other one is taken anew
        if !old { check!(after > before); last = after; cover!(); } else { cover!(); }
        check!(last > 0);
        check!(got.offset() == offset);
        check!(got == times[last - 1]);
    }
}
/// a result completed through one of the keys comes out of them exactly once
pub fn keys() {
    let v = [any_u64(), any_u64()];
    let a: [AsyncKey<u64>; 2] = [AsyncKey::new(), AsyncKey::new()];
    let others = [[a[0].clone(), a[0].clone()], [a[1].clone(), a[1].clone()]];
    // 0: pending, 1: completed, 2: handed out
    let mut state = [0u8; 2];
    for _ in 0..STEPS + 1 {
        let w = choice(2);
        match choice(3) {
            0 if state[w] == 0 => { let k = if choice(2) == 0 { others[w][0].clone() } else { others[w][1].clone().clone() }; k.complete(v[w]); state[w] = 1; cover!(); }
            0 => stop(),
            j => match if j == 1 { a[w].poll() } else { others[w][1].poll() } {
                AsyncResult::Pending => { check!(state[w] == 0); cover!(); }
                AsyncResult::Completed(x) => { check!(state[w] == 1 && x == v[w]); state[w] = 2; cover!(); }
                AsyncResult::Consumed => { check!(state[w] == 2); cover!(); }
            }
        }
    }
}
harnesses!(clock, keys);
