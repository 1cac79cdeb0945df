//! P32 functions: angles, powers, logarithms and chance
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::vec; use alloc::vec::Vec;

fn f1(k: usize) -> Expr { let value = bvar("a"); e(match k { 0 => X::Sin { value }, 1 => X::Cos { value }, 2 => X::Tan { value }, 3 => X::Asin { value }, 4 => X::Acos { value }, _ => X::Atan { value } }) }
fn f2(k: usize) -> Expr {
    let (a, b) = (bvar("a"), bvar("b"));
    e(match k { 0 => X::Atan2 { y: a, x: b }, 1 => X::Pow { base: a, power: b }, 2 => X::Log { value: a, base: b }, _ => X::Random { a, b } })
}
fn num_of(x: Option<V>) -> Option<f64> { match x { Some(V::N(x)) => Some(x), _ => None } }
fn near(a: f64, b: f64) -> bool { let d = a - b; (d < 1e-10) & (d > -1e-10) }
/// numbers from -1 to less than 1
fn unit() -> f64 { if cfg!(feature = "deep") { (any_u16() >> 4) as f64 / 2048.0 - 1.0 } else { any_u8() as f64 / 128.0 - 1.0 } }
const RAD: f64 = 0.017453292519943295;
/// sine and cosine by their series, good to 1e-12 up to 180 degrees
fn sin(d: f64) -> f64 { let x = d * RAD; let (mut t, mut r, mut k) = (x, x, 1.0); for _ in 0..16 { t = -t * x * x / ((k + 1.0) * (k + 2.0)); r += t; k += 2.0; } r }
fn cos(d: f64) -> f64 { let x = d * RAD; let (mut t, mut r, mut k) = (1.0, 1.0, 0.0); for _ in 0..16 { t = -t * x * x / ((k + 1.0) * (k + 2.0)); r += t; k += 2.0; } r }
/// the angles up to 32 degrees to either side of the quarters of the circle
pub fn circle() {
    let (k, turn) = (choice(3), choice(6) as f64 - 2.0);
    let d = unit() * 32.0;
    let (s, c) = match turn as i32 { -2 | 2 => (-sin(d), -cos(d)), -1 | 3 => (-cos(d), sin(d)), 1 => (cos(d), -sin(d)), _ => (sin(d), cos(d)) };
    match num_of(ev(f1(k), &[n(d + 90.0 * turn)])) {
        Some(x) => { cover!(); match k { 0 => check!(near(x, s)), 1 => check!(near(x, c)), _ => check!(near(x * c, s) | near(c, 0.0)) } }
        None => check!(false),
    }
}
/// the inverses give degrees, in their range; there is none of a number out of [-1, 1]
pub fn inverse() {
    let k = choice(3);
    let x = unit() * 2.0;
    let r = num_of(ev(f1(3 + k), &[n(x)]));
    let inside = (x >= -1.0) & (x <= 1.0);
    match (k, r) {
        (0, Some(r)) => { cover!(); check!(inside & near(sin(r), x) & (r >= -90.0) & (r <= 90.0)); }
        (1, Some(r)) => { cover!(); check!(inside & near(cos(r), x) & (r >= 0.0) & (r <= 180.0)); }
        (_, Some(r)) => { cover!(); check!(near(sin(r), x * cos(r)) & (r >= -90.0) & (r <= 90.0)); }
        (k, None) => { cover!(); check!(k < 2 && !inside); }
    }
}
/// the angle of a point: sine along the first, cosine along the second operand
pub fn point() {
    let x = [3.0, -4.0, 0.0, 1.0][choice(4)];
    let v = unit() * 128.0;
    let swap = (choice(2) == 1);
    let (y, x) = if swap { (x, v) } else { (v, x) };
    match num_of(ev(f2(0), &[n(y), n(x)])) {
        Some(r) => {
            cover!();
            let (s, c) = (sin(r), cos(r));
            let d = y * c - x * s;
            check!((d < 1e-8) & (d > -1e-8) & (r >= -180.0) & (r <= 180.0));
            check!((s * y + c * x > 0.01) | ((x == 0.0) & (y == 0.0)));
        }
        None => check!(false),
    }
}
/// whole powers of whole numbers, while they are exact; reciprocals and roots
pub fn power() {
    let k = choice(9);
    let a = any_u8() as f64 - 128.0;
    let mut want = 1.0;
    for _ in 0..k.min(6) { want *= a; }
    let (p, want) = match k { 0..=6 => (k as f64, want), 7 => (-1.0, 1.0 / a), _ => (0.5, a) };
    match num_of(ev(f2(1), &[n(a), n(p)])) {
        Some(r) => { cover!(); match k { 8 => check!((a >= 0.0) & (r >= 0.0) & near(r * r, a)), 7 => check!((a != 0.0) & near(r, want)), _ => check!(r == want) } }
        None => { cover!(); check!(k == 8 && a < 0.0 || k == 7 && a == 0.0) }
    }
}
/// powers of 2 beyond the largest number are errors, below the smallest they are 0
pub fn power_range() {
    let b = any_u16() >> 3;
    let p = b as f64 - 4096.0;
    match num_of(ev(f2(1), &[n(2.0), n(p)])) {
        Some(r) => {
            cover!();
            check!(p < 1024.0);
            check!((p < -1074.0) == (r == 0.0));
            check!((p > 0.0) == (r > 1.0));
            check!((p < -1022.0) | (r.to_bits() == ((p + 1023.0) as u64) << 52));
        }
        None => { cover!(); check!(p >= 1024.0) }
    }
}
/// the logarithm says what power of the base the value is; there is none of what is not positive
pub fn logarithm() {
    let base = [2.0, 10.0, 3.0, 0.5][choice(4)];
    let v = unit() * 96.0 + 32.0;
    match num_of(ev(f2(2), &[n(v), n(base)])) {
        Some(r) => {
            cover!();
            check!(v > 0.0);
            // base^r by the exponential series
            let x = r * match base as u32 { 2 => 0.6931471805599453, 10 => 2.302585092994046, 3 => 1.0986122886681098, _ => -0.6931471805599453 } / 8.0;
            let (mut t, mut y) = (1.0, 1.0);
            for i in 1..20 { t = t * x / i as f64; y += t; }
            y = y * y; y = y * y; y = y * y;
            check!(near(y / v, 1.0));
        }
        None => { cover!(); check!(v <= 0.0) }
    }
}
/// the logarithm to any whole base of a power of it; a base that is none is an error
pub fn log_base() {
    let k = choice(5);
    let base = any_u8() as f64 - 16.0;
    let mut v = 1.0;
    for _ in 0..k { v *= base; }
    match num_of(ev(f2(2), &[n(v), n(base)])) {
        Some(r) => { cover!(); check!((base >= 0.0) & (base != 1.0)); check!(near(r, k as f64) | (base == 0.0)) }
        None => { cover!(); check!((base <= 0.0) | (base == 1.0)) }
    }
}
/// numbers drawn between two: in their bounds, whichever comes first, whole if both are, and each bound possible
pub fn chance() {
    let (a, b) = [(1.0, 6.0), (0.0, 0.0), (-3.0, 2.0), (-1.0, 0.0), (5.0, 9007199254740991.0)][choice(5)];
    let (x, y) = if (choice(2) == 1) { (a, b) } else { (b, a) };
    let sys = Sys::new();
    match num_of(ev_sys(f2(3), &[n(x), n(y)], &sys)) {
        Some(r) => {
            check!((r >= a) & (r <= b));
            check!(r as i64 as f64 == r);
            if r == a { cover!(); }
            if r == b { cover!(); }
        }
        None => check!(false),
    }
}
pub fn chance_real() {
    let (a, b) = [(0.5, 1.0), (-1.0, 0.25), (2.0, 2.5)][choice(3)];
    let (x, y) = if (choice(2) == 1) { (a, b) } else { (b, a) };
    match num_of(ev(f2(3), &[n(x), n(y)])) {
        Some(r) => { check!((r >= a) & (r <= b)); if r < (a + b) / 2.0 { cover!(); }
            if r > (a + b) / 2.0 { cover!(); }
            if r as i64 as f64 != r { cover!(); } }
        None => check!(false),
    }
}
/// draws spread evenly over the random source give each whole number once, and a number in each part of a range
pub fn chance_spread() {
    let (a, b) = [(1.0, 6.0), (0.0, 0.0), (-3.0, 2.0), (-1.0, 0.0), (0.5, 1.0), (-1.0, 0.25), (100.25, 108.0)][choice(7)];
    let (x, y) = if choice(2) == 1 { (a, b) } else { (b, a) };
    let whole = a as i64 as f64 == a && b as i64 as f64 == b;
    let parts = if whole { (b - a) as usize + 1 } else { 4 };
    let mut seen = vec![0; parts];
    for d in spread(parts) {
        let sys = Sys::new();
        sys.draw.set(Some(d));
        match num_of(ev_sys(f2(3), &[n(x), n(y)], &sys)) {
            Some(r) => { check!((r >= a) & (r <= b)); let k = if whole { (r - a) as usize } else { ((r - a) / (b - a) * 4.0) as usize }; check!(k < parts); seen[k] += 1; }
            None => check!(false),
        }
    }
    cover!();
    check!(seen.iter().all(|x| *x == 1));
}
/// bounds of any size: the result is in between, whole where both are
pub fn chance_wide() {
    let (a, b) = [(0.5, f64::MAX), (-f64::MAX, 0.25), (-1.7e308, 1.7e308), (1e19, 2e19), (-1e300, 3.0), (-9223372036854775808.0, 9223372036854774784.0), (0.0, 1e16)][choice(7)];
    let (x, y) = if choice(2) == 1 { (a, b) } else { (b, a) };
    let sys = Sys::new();
    let k = choice(3);
    sys.draw.set(Some([0, u64::MAX, 1 << 63][k]));
    match num_of(ev_sys(f2(3), &[n(x), n(y)], &sys)) {
        Some(r) => {
            cover!();
            check!((r >= a) & (r <= b));
            if a != 0.5 && b != 0.25 { check!((r > 9e15) | (r < -9e15) | (r as i64 as f64 == r)); }
            // the ends and the middle of the source give a number near the ends and the middle of the range
            let at = r / (b / 2.0 - a / 2.0) - a / (b / 2.0 - a / 2.0);
            check!(match k { 0 => at < 0.01, 1 => at > 1.99, _ => (at > 0.99) & (at < 1.01) });
        }
        None => check!(false),
    }
}
/// over lists every element has its own draw
pub fn chance_lists() {
    let sys = Sys::new();
    let hi = [n(2.0), l(vec![n(2.0), n(2.0)])][choice(2)].clone();
    match ev_sys(f2(3), &[l(vec![n(1.0), n(1.0)]), hi], &sys) {
        Some(V::L(r)) => {
            check!(r.len() == 2);
            match (&r[0], &r[1]) {
                (V::N(x), V::N(y)) => {
                    check!((*x == 1.0) | (*x == 2.0));
                    check!((*y == 1.0) | (*y == 2.0));
                    if *x == *y { cover!(); }
                    if *x != *y { cover!(); }
                }
                _ => check!(false),
            }
        }
        _ => check!(false),
    }
}
harnesses!(circle, inverse, point, power, power_range, logarithm, log_base, chance, chance_spread, chance_wide, chance_real, chance_lists);
