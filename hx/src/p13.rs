//! P13 sleeping, the timer, waiting for a condition, and the calendar
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sched::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::real_time::{time, OffsetDateTime, UtcOffset};

fn x(k: &'static str) -> E { E::Var(k) }
fn sayn(v: f64) -> A { A::Say(E::N(v)) }
fn one(v: Vec<A>) -> En { En { name: "Stage", fields: vec![], scripts: vec![Sc { hat: Ht::Flag, prog: v }] } }
fn two(v: Vec<A>, w: Vec<A>) -> En { En { name: "Stage", fields: vec![], scripts: vec![Sc { hat: Ht::Flag, prog: v }, Sc { hat: Ht::Flag, prog: w }] } }
fn sleep() -> A { A::Sleep(x("s")) }
/// a project starts, and after each further turn the clock shows another time
fn play(globals: Vec<(&'static str, f64)>, en: En, times: Vec<u64>, turns: usize) {
    let p = Proj { globals, ents: vec![en] };
    let mut pokes = vec![Poke::Start];
    pokes.extend(times.into_iter().map(Poke::Time));
    side_by_side(&p, &pokes, turns);
}
/// a script sleeps for any number of seconds while the clock moves in any way
pub fn naps() {
    let body = match choice(8) {
        0 => one(vec![sayn(1.0), sleep(), sayn(2.0)]),
        1 => one(vec![A::Warp(vec![sleep(), sayn(1.0)]), sayn(2.0)]),
        2 => one(vec![A::Repeat(E::N(2.0), vec![sleep(), sayn(1.0)])]),
        3 => two(vec![sleep(), sayn(1.0)], vec![sayn(2.0), A::Repeat(E::N(3.0), vec![]), sayn(3.0)]),
        4 => one(vec![A::Try(vec![sleep(), A::Throw], vec![sayn(1.0)]), sayn(2.0)]),
        5 => one(vec![A::On(Tgt::Me, vec![sleep(), A::Ret]), sayn(2.0)]),
        6 => one(vec![A::Fork(vec![sleep(), sayn(1.0)]), sayn(2.0)]),
        _ => two(vec![sayn(1.0), sleep(), A::Say(E::Plus(Box::new(x("s")), Box::new(E::N(0.0))))], vec![A::Set("s", E::N(1.0)), sayn(4.0)]),
    };
    cover!();
    play(vec![("s", any_num())], body, vec![any_u64(), any_u64(), any_u64()], 9);
}
/// two scripts that sleep side by side
pub fn two_sleepers() {
    let en = two(vec![sayn(1.0), A::Sleep(x("s")), sayn(2.0)], vec![sayn(3.0), A::Sleep(x("t")), sayn(4.0)]);
    let t = || any_u16() as u64;
    play(vec![("s", (any_u16() & 15) as f64), ("t", (any_u16() & 15) as f64)], en, vec![t(), t(), t(), t(), t()], 8);
}
/// the timer counts from its last reset for everyone
pub fn timer() { timed(|| any_u64()) }
/// the same with clocks of few readings, where any answer is found fast
pub fn timer_small() { timed(|| (any_u8() & 15) as u64 * 250) }
fn timed(clock: impl Fn() -> u64) {
    let show = || A::Say(E::Timer);
    let pause = || A::Repeat(E::N(1.0), vec![]);
    let en = match choice(4) {
        0 => one(vec![show(), pause(), show(), A::ResetTimer, show(), pause(), show()]),
        1 => two(vec![show(), pause(), pause(), show()], vec![pause(), A::ResetTimer, show(), pause(), show()]),
        2 => one(vec![A::ResetTimer, A::Sleep(E::N(1.5)), show(), A::ResetTimer, pause(), show()]),
        _ => one(vec![pause(), A::ResetTimer, A::ResetTimer, pause(), A::On(Tgt::Me, vec![show(), pause(), A::ResetTimer]), show(), pause(), show()]),
    };
    cover!();
    play(vec![], en, vec![clock(), clock(), clock(), clock()], 8);
}
/// a script waits until a condition holds that others bring about
pub fn waits() {
    let w = |l, r| A::WaitLess(l, r);
    let en = match choice(6) {
        0 => two(vec![sayn(1.0), w(E::N(2.0), x("x")), A::Say(x("x"))], vec![A::Repeat(E::N(4.0), vec![A::Inc("x", E::N(1.0))])]),
        1 => two(vec![A::Repeat(E::N(2.0), vec![w(x("y"), x("x")), A::Inc("y", E::N(1.0)), A::Say(x("x"))])], vec![A::Repeat(E::N(4.0), vec![A::Inc("x", E::N(1.0))])]),
        2 => two(vec![w(x("x"), x("y")), sayn(1.0)], vec![w(x("y"), x("x")), sayn(2.0)]),
        3 => one(vec![w(x("y"), E::Timer), sayn(1.0)]),
        4 => two(vec![A::Warp(vec![A::If(x("x"), x("y"), vec![w(x("x"), x("y"))], vec![])]), sayn(1.0)], vec![sayn(2.0)]),
        _ => two(vec![A::Try(vec![w(E::N(1.0), x("x"))], vec![sayn(9.0)]), sayn(1.0)], vec![A::Repeat(E::N(1.0), vec![]), A::Set("x", E::Me), A::Repeat(E::N(2.0), vec![])]),
    };
    cover!();
    let s = || (any_u8() & 3) as f64;
    let t = || (any_u8() as u64) << 4;
    play(vec![("x", s()), ("y", s())], en, vec![t(), t(), t(), t()], 12);
}
/// without a clock the blocks that need one are errors, and not being numbers is one too
pub fn no_clock() {
    let blocks = [s(K::ResetTimer), say(e(X::Timer)), s(K::Sleep { seconds: bvar("a") }), s(K::Sleep { seconds: bx(txt("soon")) }), s(K::Sleep { seconds: bx(boolean(true)) }), s(K::Sleep { seconds: bx(list(vec![num(1.0)])) })];
    let k = choice(blocks.len());
    let timeless = choice(2) == 1;
    let sys = Sys::new();
    sys.timeless.set(timeless);
    let a = any_num();
    let b = blocks[k].clone();
    gc(|mc| {
        let mut r = start(mc, &main_role(&["a"], vec![tryc(vec![b, say(num(1.0))], "er", vec![say(num(2.0))])]), &sys, Settings::default(), vec![("a", nv(a))]);
        let naps = k == 2 && a * 1000.0 > 0.0;
        let fails = k > 2 || timeless && (k < 2 || naps);
        if k == 2 && !timeless { sys.now.set(1); sys.times.borrow_mut().push_back(0); sys.times.borrow_mut().push_back(u64::MAX); }
        match r.to_end(mc, 200) { End::Ok(_) => (), _ => { check!(false); return } }
        let log = sys.log.borrow();
        let said = match log.last() { Some(Ev::Print(_, Some(V::N(x)))) => *x, _ => -1.0 };
        cover!();
        check!(said == if fails { 2.0 } else { 1.0 });
        check!(r.yields == if k == 2 && a <= 0.0 { 1 } else { 0 });
    });
}
const Q: [ast::TimeQuery; 8] = [ast::TimeQuery::Year, ast::TimeQuery::Month, ast::TimeQuery::Date, ast::TimeQuery::DayOfWeek, ast::TimeQuery::Hour, ast::TimeQuery::Minute, ast::TimeQuery::Second, ast::TimeQuery::UnixTimestampMs];
/// days from 1970-01-01, counted in the civil calendar
fn days(y: i64, m: i64, d: i64) -> i64 {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let len = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut n = d - 1;
    for k in 1..m { n += len[k as usize - 1] + if k == 2 && leap(y) { 1 } else { 0 }; }
    let (mut a, mut k) = (1970, 0);
    while a < y { k += if leap(a) { 366 } else { 365 }; a += 1 }
    while a > y { a -= 1; k -= if leap(a) { 366 } else { 365 } }
    n + k
}
/// the calendar blocks show the fields of the system's local time
pub fn calendar() {
    let y = [1900, 1969, 1970, 2000, 2023, 2024, 2100][choice(7)];
    let q = choice(8);
    let m = if cfg!(feature = "deep") { 1 + choice(12) } else { [1, 2, 3, 12][choice(4)] };
    let off = [0i64, -5, 9][(y as usize + m + q) % 3];
    // one of the fields is any value, the others are the last or the first there are
    let k = [0, 0, 0, 0, 1, 2, 3, 0][q];
    let last = choice(2) == 1;
    let pick = |i, n: u8| if k == i && q < 7 { let v = any_u8(); assume(v < n); v } else if last { n - 1 } else { 0 };
    let (d, h, mi, se, ms) = (1 + pick(0, 28), pick(1, 24), pick(2, 60), pick(3, 60), if last { 999 } else { 0 });
    let months = [time::Month::January, time::Month::February, time::Month::March, time::Month::April, time::Month::May, time::Month::June, time::Month::July, time::Month::August, time::Month::September, time::Month::October, time::Month::November, time::Month::December];
    let date = time::Date::from_calendar_date(y, months[m - 1], d).unwrap();
    let clock = time::Time::from_hms_milli(h, mi, se, ms).unwrap();
    let local = OffsetDateTime::new_in_offset(date, clock, UtcOffset::from_hms(off as i8, 0, 0).unwrap());
    let sys = Sys::new();
    sys.real.set(Some(local));
    let got = match ev_sys(e(X::RealTime { query: Q[q].clone() }), &[], &sys) { Some(V::N(x)) => x, _ => { check!(false); return } };
    let n = days(y as i64, m as i64, d as i64);
    let secs = n * 86400 + h as i64 * 3600 + mi as i64 * 60 + se as i64 - off * 3600;
    let want = [y as i64, m as i64, d as i64, (n + 4).rem_euclid(7) + 1, h as i64, mi as i64, se as i64, secs * 1000 + ms as i64][q];
    cover!();
    check!(got == want as f64);
    // a clock that is no calendar cannot answer
    check!(ev(e(X::RealTime { query: Q[q].clone() }), &[]).is_none());
}
harnesses!(naps, two_sleepers, timer, timer_small, waits, no_clock, calendar);
