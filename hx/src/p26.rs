//! P26 properties of entities
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::rc::Rc; use alloc::vec; use alloc::vec::Vec;
use core::cell::RefCell;

const ALL: [Property; 24] = { use Property::*; [XPos, YPos, Heading, Visible, Size, PenDown, PenSize, PenColorH, PenColorS, PenColorV, PenColorT, Tempo, Volume, Balance, ColorH, ColorS, ColorV, ColorT, Fisheye, Whirl, Pixelate, Mosaic, Negative, PenColor] };
const LAST: usize = 23; // the pen colour as one number, which is made of the four before
#[derive(Clone, Copy, PartialEq)]
enum Kind { Any, Turn, Percent, Positive, Flag, Color }
fn kind(k: usize) -> Kind { match k { 2 | 7 | 14 => Kind::Turn, 8 | 9 | 10 | 15 | 16 | 17 => Kind::Percent, 4 | 6 => Kind::Positive, 3 | 5 => Kind::Flag, 23 => Kind::Color, _ => Kind::Any } }
fn sink() -> (Key_, Sink) { let s: Sink = Rc::new(RefCell::new(None)); (Key_(0, Some(s.clone())), s) }
fn done(s: &Sink) -> Option<Done> { s.borrow().clone() }
fn get(p: &Properties, k: usize) -> V {
    let (key, s) = sink();
    match p.perform_get_property::<Cu, Sys>(key, ALL[k]) { RequestStatus::Handled => (), _ => return V::Deep }
    match done(&s) { Some(Done::Value(v)) => v, _ => V::Deep }
}
fn set(p: &mut Properties, k: usize, v: Value<'_, Cu, Sys>, change: bool) -> Option<Done> {
    let (key, s) = sink();
    let h = if change { matches!(p.perform_change_property::<Cu, Sys>(key, ALL[k], v), CommandStatus::Handled) } else { matches!(p.perform_set_property::<Cu, Sys>(key, ALL[k], v), CommandStatus::Handled) };
    if h { done(&s) } else { None }
}
/// some state: the numbers are whole or quarters
fn some(k: usize) -> V { match kind(k) { Kind::Flag => V::B(any_bool()), Kind::Turn => n(any_u8() as f64), Kind::Percent => n((any_u8() & 63) as f64 * 1.5), Kind::Positive => n(any_u8() as f64), _ => n(any_int() / 4.0) } }
fn put(p: &mut Properties, k: usize, v: &V) {
    if let V::B(b) = v { if k == 3 { p.visible = *b } else { p.pen_down = *b } return }
    let V::N(x) = v else { return };
    let x = Number::new(*x).unwrap();
    let e = &mut p.effects;
    *match k { 0 => &mut p.pos.0, 1 => &mut p.pos.1, 2 => &mut p.heading, 4 => &mut p.size, 6 => &mut p.pen_size, 7 => &mut p.pen_color_h, 8 => &mut p.pen_color_s, 9 => &mut p.pen_color_v, 10 => &mut p.pen_color_t, 11 => &mut p.tempo, 12 => &mut p.volume, 13 => &mut p.balance, 14 => &mut e.color_h, 15 => &mut e.color_s, 16 => &mut e.color_v, 17 => &mut e.color_t, 18 => &mut e.fisheye, 19 => &mut e.whirl, 20 => &mut e.pixelate, 21 => &mut e.mosaic, _ => &mut e.negative } = x;
}
/// a property takes the value it is given or changed by, within its range; nothing else changes
pub fn values() {
    let k = choice(LAST);
    let change = choice(2) == 1;
    let mut p = Properties::default();
    let turn = kind(k) == Kind::Turn;
    let start = match kind(k) { Kind::Turn => [0.0, 350.0][choice(2)], Kind::Percent => [0.0, 30.5, 100.0][choice(3)], Kind::Positive => [0.0, 12.25, 1.7e308][choice(3)], Kind::Flag => 0.0, _ => [0.0, -12.25, 1.7e308, -1.7e308][choice(4)] };
    let old: Vec<V> = (0..LAST).map(|i| if i == k || i == (k + 1) % LAST || i == (k + LAST - 1) % LAST { if i == k && kind(i) != Kind::Flag { n(start) } else { some(i) } } else { match kind(i) { Kind::Flag => V::B(i == 3), _ => n(i as f64) } }).collect();
    for i in 0..LAST { put(&mut p, i, &old[i]) }
    gc(|mc| {
        let mut whole = None;
        let (v, x): (Value<'_, Cu, Sys>, Option<V>) = match choice(if turn { 5 } else { 6 }) {
            0 if turn => { let i = if change { [-9i16, 0, 9, 10, 370, 12000, -360, -351, -710][choice(9)] } else { any_u16() as i16 }; whole = Some((i as i32 + if change { start as i32 } else { 0 }).rem_euclid(360)); (nv(i as f64), Some(n(i as f64))) }
            0 => { let x = any_int() / 8.0; (nv(x), Some(n(x))) }
            1 => (tv("-12"), Some(n(-12.0))),
            2 => { let b = any_bool(); (Value::Bool(b), Some(V::B(b))) }
            3 => (tv("true"), None),
            4 => (lval(mc, vec![nv(1.0)]), None),
            _ => { let x = any_num(); (nv(x), Some(n(x))) }
        };
        let got = set(&mut p, k, v, change);
        let want = match (&x, kind(k)) {
            (Some(V::B(x)), Kind::Flag) => { let V::B(o) = old[k] else { return }; Some(V::B(if change { o ^ x } else { *x })) }
            (Some(V::N(x)), Kind::Flag) | (Some(V::N(x)), Kind::Color) => None,
            (Some(V::N(x)), kd) => {
                let V::N(o) = old[k] else { return };
                let y = if change { o + x } else { *x };
                let y = match kd { Kind::Positive => if y > 0.0 { y } else { 0.0 }, Kind::Percent => if y > 100.0 { 100.0 } else if y > 0.0 { y } else { 0.0 }, Kind::Turn => match whole { Some(i) => i as f64, None => (y as i32).rem_euclid(360) as f64 }, _ => y };
                if y.is_finite() { Some(n(norm(y))) } else { None }
            }
            _ => None,
        };
        cover!();
        check!(got == Some(if want.is_some() { Done::Ok } else { Done::Err }));
        for i in 0..LAST { check!(veq(&get(&p, i), if i == k { want.as_ref().unwrap_or(&old[i]) } else { &old[i] })); }
    });
}
/// clearing effects, going somewhere, the pen colour: exactly what they name
pub fn others() {
    let mut p = Properties::default();
    let old: Vec<V> = (0..LAST).map(|i| if kind(i) == Kind::Flag { V::B(i == 3) } else if i > 13 || i < 2 { some(i) } else { n(i as f64) }).collect();
    for i in 0..LAST { put(&mut p, i, &old[i]) }
    let (key, s) = sink();
    let (x, y) = (any_num(), any_num());
    let k = choice(4);
    let h = match k {
        0 => matches!(p.perform_clear_effects::<Cu, Sys>(key), CommandStatus::Handled),
        1 => matches!(p.perform_goto_xy::<Cu, Sys>(key, Number::new(x).unwrap(), Number::new(y).unwrap()), CommandStatus::Handled),
        2 => matches!(p.perform_change_property::<Cu, Sys>(key, Property::PenColor, nv(x)), CommandStatus::Handled),
        _ => matches!(p.perform_set_property::<Cu, Sys>(key, Property::PenColor, Value::Bool(true)), CommandStatus::Handled),
    };
    cover!();
    check!(h && done(&s) == Some(if k < 2 { Done::Ok } else { Done::Err }));
    for i in 0..LAST { check!(veq(&get(&p, i), &match (k, i) { (0, 14..) => n(0.0), (1, 0) => n(x), (1, 1) => n(y), _ => old[i].clone() })); }
}
/// a step goes the given distance in the direction of the heading: 0 is up, 90 is right
pub fn steps() {
    let q = choice(4);
    let mut p = Properties::default();
    let (x, y) = ([0.0, -7.5][choice(2)], [0.0, 100.25][choice(2)]);
    p.pos = (Number::new(x).unwrap(), Number::new(y).unwrap());
    p.heading = Number::new([0.0, 90.0, 180.0, 270.0][q]).unwrap();
    let d = (any_u8() & 7) as f64 * 0.5;
    let (key, s) = sink();
    let _ = p.perform_forward::<Cu, Sys>(key, Number::new(d).unwrap());
    cover!();
    let (wx, wy) = match q { 0 => (x, y + d), 1 => (x + d, y), 2 => (x, y - d), _ => (x - d, y) };
    let near = |a: f64, b: f64| ((a - b) < 1e-6) & ((a - b) > -1e-6);
    check!(done(&s) == Some(Done::Ok));
    check!(near(p.pos.0.get(), wx) & near(p.pos.1.get(), wy) & (p.heading.get() == [0.0, 90.0, 180.0, 270.0][q]));
}
/// slanted steps and pointing at places
pub fn directions() {
    let mut p = Properties::default();
    let (x, y) = ([0.0, -7.5][choice(2)], [0.0, 100.25][choice(2)]);
    p.pos = (Number::new(x).unwrap(), Number::new(y).unwrap());
    p.heading = Number::new(33.0).unwrap();
    let r3 = 1.7320508075688772;
    let (dx, dy, h) = [(0.0, 2.0, 0.0), (2.0, 2.0, 45.0), (3.0, 0.0, 90.0), (1.0, -1.0, 135.0), (0.0, -0.5, 180.0), (-2.0, -2.0, 225.0), (-9.0, 0.0, 270.0), (-1.0, 1.0, 315.0), (1.0, r3, 30.0), (r3, -1.0, 120.0), (-r3, 1.0, 300.0)][choice(11)];
    let (key, s) = sink();
    let near = |a: f64, b: f64| ((a - b) < 1e-9) & ((a - b) > -1e-9);
    cover!();
    if choice(4) == 3 { // further than numbers go: refused, and nothing moves
        let far = [1.7e308, -1.7e308][choice(2)];
        p.pos.0 = Number::new(far).unwrap();
        p.heading = Number::new(90.0).unwrap();
        let _ = p.perform_forward::<Cu, Sys>(key, Number::new(far).unwrap());
        check!(done(&s) == Some(Done::Err) && p.pos.0.get() == far && p.pos.1.get() == y && p.heading.get() == 90.0);
        return;
    }
    let len = libm_sqrt(dx * dx + dy * dy);
    if choice(2) == 0 {
        let _ = p.perform_point_towards_xy::<Cu, Sys>(key, Number::new(x + dx).unwrap(), Number::new(y + dy).unwrap());
        check!(done(&s) == Some(Done::Ok) && near(p.heading.get(), h) && p.pos.0.get() == x && p.pos.1.get() == y);
    } else {
        p.heading = Number::new(h).unwrap();
        let _ = p.perform_forward::<Cu, Sys>(key, Number::new(len).unwrap());
        check!(done(&s) == Some(Done::Ok) && near(p.pos.0.get(), x + dx) && near(p.pos.1.get(), y + dy));
    }
}
fn libm_sqrt(x: f64) -> f64 { let mut r = x.max(1.0); for _ in 0..60 { r = 0.5 * (r + x / r) } r }
harnesses!(values, others, steps, directions);
