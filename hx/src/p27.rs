//! P27 colors
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::rc::Rc; use core::cell::RefCell;

fn with(p: &mut Properties, v: Value<'_, Cu, Sys>) -> Option<Done> {
    let s: Sink = Rc::new(RefCell::new(None));
    let _ = p.perform_set_property::<Cu, Sys>(Key_(0, Some(s.clone())), Property::PenColor, v);
    let r = s.borrow().clone(); r
}
fn pen(p: &Properties) -> V {
    let s: Sink = Rc::new(RefCell::new(None));
    let _ = p.perform_get_property::<Cu, Sys>(Key_(0, Some(s.clone())), Property::PenColor);
    let r = s.borrow().clone(); match r { Some(Done::Value(v)) => v, _ => V::Deep }
}
/// a color to hue, saturation, brightness and opacity and back
pub fn there_and_back() {
    let x = any_u8();
    let side = [0, 255, 128, 1, 127, 200, 37, 254][..if cfg!(feature = "deep") { 8 } else { 6 }].to_vec();
    let (y, z) = (side[choice(side.len())], side[choice(side.len())]);
    let c = match choice(3) { 0 => Color { r: x, g: y, b: z, a: 255 }, 1 => Color { r: y, g: x, b: z, a: 7 }, _ => Color { r: y, g: z, b: x, a: 0 } };
    let (h, s, v, a) = c.to_hsva();
    cover!();
    check!((h >= 0.0) & (h <= 360.0) & (s >= 0.0) & (s <= 1.0) & (v >= 0.0) & (v <= 1.0));
    let d = Color::from_hsva(h, s, v, a);
    check!((d.r == c.r) & (d.g == c.g) & (d.b == c.b) & (d.a == c.a));
}
/// the pen color as a number
pub fn numbers() {
    let mut p = Properties::default();
    let x = any_u8();
    let base = [0u32, 0xff000000, 0xff336699, 0x80fefefe, 0xff00ff01][choice(5)];
    let shift = 8 * choice(4) as u32;
    let c = (base & !(255 << shift)) | ((x as u32) << shift);
    cover!();
    check!(with(&mut p, nv(c as f64)) == Some(Done::Ok));
    check!(veq(&pen(&p), &n(c as f64)));
    let [a, r, g, b] = c.to_be_bytes();
    let near = |x: Number, y: f64| { let d = x.get() - y; (d < 1e-3) & (d > -1e-3) };
    let max = |x: u8, y: u8| if x > y { x } else { y };
    let (hi, lo) = (max(max(r, g), b), !max(max(!r, !g), !b));
    check!(near(p.pen_color_t, (255 - a) as f64 * 100.0 / 255.0));
    check!(near(p.pen_color_v, hi as f64 * 100.0 / 255.0));
    check!(near(p.pen_color_s, if hi == 0 { 0.0 } else { (hi - lo) as f64 * 100.0 / hi as f64 }));
}
/// other things are no colors; texts of numbers are
pub fn others() {
    let mut p = Properties::default();
    with(&mut p, nv(4281558681.0));
    cover!();
    gc(|mc| {
        match choice(4) {
            0 => { check!(with(&mut p, tv("4294901760")) == Some(Done::Ok)); check!(veq(&pen(&p), &n(4294901760.0))); return }
            1 => check!(with(&mut p, tv("red")) == Some(Done::Err)),
            2 => check!(with(&mut p, Value::Bool(any_bool())) == Some(Done::Err)),
            _ => check!(with(&mut p, lval(mc, alloc::vec![nv(0.0)])) == Some(Done::Err)),
        };
        check!(veq(&pen(&p), &n(4281558681.0)));
    });
}
/// the color of a hue, saturation and brightness: sixths of the circle from red over green to blue
pub fn wheel() {
    let h = (any_u16() >> 6) as i32 - [400, 0][choice(2)];
    let (s, v) = [(100i64, 100i64), (0, 100), (50, 100), (100, 50), (250, 100), (-7, 40), (20, 1000), (100, -3)][choice(8)];
    let a = [255i64, 0, 128, -9, 300][choice(5)];
    let c = Color::from_hsva(h as f32, s as f32 / 100.0, v as f32 / 100.0, a as f32 / 255.0);
    cover!();
    let (s, v, a) = (s.clamp(0, 100), v.clamp(0, 100), a.clamp(0, 255));
    // how much of each there is, in 60ths of the chroma
    let part = |at: i32| { let d = (h - at).rem_euclid(360); let d = if d > 180 { 360 - d } else { d }; (120 - d).clamp(0, 60) as i64 };
    // one channel is brightness * (1 - saturation * (1 - part/60))
    let ok = |got: u8, at: i32| { let e = got as i64 * 600000 - 255 * v * (6000 - s * (60 - part(at))); (e <= 360000) & (e >= -360000) };
    check!(ok(c.r, 0) & ok(c.g, 120) & ok(c.b, 240) & (c.a as i64 == a));
}
harnesses!(there_and_back, numbers, others, wheel);
