//! P03 conversions between numbers, text and the other kinds
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::{rc::Rc, string::{String, ToString}, vec, vec::Vec};

fn num_of(text: &str) -> Option<f64> { SimpleValue::parse_number(text).map(|x| x.get()) }
fn digit() -> u8 { let x = any_u8(); assume((x >= b'0') & (x <= b'9')); x }
const WS: [(&str, &str); 4] = [("", ""), (" ", " \t"), ("\n", "\u{3000}"), ("\u{a0}", "")];
/// decimal spellings: sign, digits, fraction, exponent, surrounding space
pub fn decimal() {
    let sign = choice(3);
    let ni = choice(3);
    let frac = choice(3); // none, ".", ".d"
    let exp = choice(4);
    let ws = if ni == 1 && frac == 0 { choice(4) } else { 0 };
    if ni == 0 && frac != 2 { return; }
    let mut s = String::from(WS[ws].0);
    s.push_str(["", "-", "+"][sign]);
    let mut m = 0u64;
    for _ in 0..ni { let d = digit(); s.push(d as char); m = m * 10 + (d - b'0') as u64; }
    if frac > 0 { s.push('.'); }
    if frac == 2 { let d = digit(); s.push(d as char); m = m * 10 + (d - b'0') as u64; }
    s.push_str(["", "e2", "E+1", "e-1"][exp]);
    s.push_str(WS[ws].1);
    let e10: i32 = [0, 2, 1, -1][exp] - if frac == 2 { 1 } else { 0 };
    let v = m as f64;
    let want = match e10 { 0 => v, 1 => v * 10.0, 2 => v * 100.0, -1 => v / 10.0, _ => v / 100.0 };
    let want = norm(if sign == 1 { -want } else { want });
    cover!();
    match num_of(&s) { Some(x) => check!(x == want), None => check!(false) }
}
/// prefixed integers
pub fn radix() {
    let p = choice(6);
    let k = choice(3);
    let base = [16u64, 16, 8, 8, 2, 2][p];
    let mut s = String::from(["0x", "0X", "0o", "0O", "0b", "0B"][p]);
    let (mut v, mut ok) = (0u64, k > 0);
    for _ in 0..k {
        let c = any_u8();
        assume((c > b' ') & (c < 127) & (c != b'-') & (c != b'+'));
        s.push(c as char);
        let lower = c | 32;
        let d = if (c >= b'0') & (c <= b'9') { (c - b'0') as u64 } else if (lower >= b'a') & (lower <= b'z') & (c >= b'A') { (lower - b'a') as u64 + 10 } else { 99 };
        ok &= d < base;
        v = v * base + d % 64;
    }
    match num_of(&s) { Some(x) => { cover!(); check!(ok); check!(x == v as f64); } None => { cover!(); check!(!ok); } }
}
/// every ASCII text of up to three characters: a number exactly when the grammar says so
pub fn any_text() {
    let k = choice(if cfg!(feature = "deep") { 4 } else { 3 });
    let b: Vec<u8> = (0..k).map(|_| { let c = any_u8(); assume((c >= 1) & (c < 128)); c }).collect();
    let s = String::from_utf8(b.clone()).unwrap();
    let got = num_of(&s);
    let space = |c: u8| (c == b' ') | (c >= 9) & (c <= 13);
    let (mut i, mut j) = (0, k);
    while i < j && space(b[i]) { i += 1; }
    while i < j && space(b[j - 1]) { j -= 1; }
    let b = &b[i..j];
    // what remains has at most three characters: [sign] digits [. digits] [e digits], or 0x / 0o / 0b digit
    let isd = |c: u8| (c >= b'0') & (c <= b'9');
    let valid = (|| {
        if b.len() == 3 && b[0] == b'0' && matches!(b[1] | 32, b'x' | b'o' | b'b') && (b[1] >= b'A') {
            let c = b[2];
            return match b[1] | 32 { b'x' => isd(c) || matches!(c | 32, b'a'..=b'f') && c >= b'A', b'o' => (c >= b'0') & (c <= b'7'), _ => (c == b'0') | (c == b'1') };
        }
        let mut p = 0;
        if p < b.len() && (b[p] == b'-' || b[p] == b'+') { p += 1; }
        let mut n = 0;
        while p < b.len() && isd(b[p]) { p += 1; n += 1; }
        if p < b.len() && b[p] == b'.' { p += 1; while p < b.len() && isd(b[p]) { p += 1; n += 1; } }
        if n == 0 { return false; }
        if p < b.len() && (b[p] | 32) == b'e' && b[p] >= b'A' {
            p += 1;
            if p < b.len() && (b[p] == b'-' || b[p] == b'+') { p += 1; }
            if p == b.len() { return false; }
            while p < b.len() && isd(b[p]) { p += 1; }
        }
        p == b.len()
    })();
    cover!();
    check!(got.is_some() == valid);
}
/// texts that spell no finite number
pub fn not_numbers() {
    let s = ["inf", "-inf", "nan", "NaN", "infinity", "1e999", "-1e999", "0x", "0xg", "0b2", "1 2", "1,5", "--1", "1e", "e5", ".", "0x8000000000000000", "1_000", "true", "", "  ", "１"][choice(22)];
    cover!();
    check!(num_of(s).is_none());
}
/// a number written as text reads back as the same number, and integers are written in plain digits
pub fn small_round_trip() {
    let k = [0u64, 1, 9, 10, 42, 99, 100, 255, 1000, 65535, 1234567, 4294967296, 9007199254740991, 9007199254740992][choice(14)];
    let v = norm(if choice(2) == 1 { -(k as f64) } else { k as f64 });
    let t = SimpleValue::stringify_number(Number::new(v).unwrap());
    cover!();
    let b = t.as_str().as_bytes();
    let (mut m, mut ok) = (0u64, b.len() > 0);
    let start = if b.len() > 0 && b[0] == b'-' { ok &= v < 0.0; 1 } else { ok &= v >= 0.0; 0 };
    for c in &b[start..] { ok &= (*c >= b'0') & (*c <= b'9'); m = m.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u64); }
    check!(ok & (m == k));
    check!(b.len() == start + 1 || b[start] != b'0');
}
const LAND: [f64; 14] = [0.1, -2.5, 1e15, 1e16, 1e17, 123456789012345680.0, 1e300, 5e-324, 1.7976931348623157e308, -1e-7, 0.00001, 9007199254740993.0, 3.141592653589793, 1e21];
pub fn round_trip() {
    let v = LAND[choice(14)];
    let t = SimpleValue::stringify_number(Number::new(v).unwrap());
    cover!();
    check!(num_of(t.as_str()) == Some(v));
    check!(!t.as_str().ends_with(".0"));
    check!(ev(e(X::Neg { value: bvar("a") }), &[V::T(t.as_str().into())]) == Some(n(-v)));
    // the text blocks see the same spelling
    check!(ev(e(X::TextSplit { text: bvar("a"), mode: ast::TextSplitMode::Tab }), &[n(v)]) == Some(l(vec![V::T(t.as_str().into())])));
}
/// joining a number spells it like every other text block
pub fn join_spelling() {
    let v = [0.0, 5.0, -2.5, 1e15, 0.1, 1234567.875][choice(6)];
    let t = SimpleValue::stringify_number(Number::new(v).unwrap());
    cover!();
    check!(ev(e(X::StrCat { values: bx(list(vec![var("a")])) }), &[n(v)]) == Some(V::T(t.as_str().into())));
}
pub fn join_spelling_large() {
    let v = [1e16, 1e21, -1e24, 1e-7][choice(4)];
    let t = SimpleValue::stringify_number(Number::new(v).unwrap());
    cover!();
    check!(ev(e(X::StrCat { values: bx(list(vec![var("a")])) }), &[n(v)]) == Some(V::T(t.as_str().into())));
}
type Va<'gc> = Value<'gc, Cu, Sys>;
fn simple_kinds<'gc>(mc: &Mutation<'gc>, i: usize) -> Option<Va<'gc>> {
    Some(match i {
        0 => Value::Bool(true), 1 => nv(1.0), 2 => tv("12"), 3 => tv("true"), 4 => lval(mc, vec![nv(1.0)]),
        5 => Value::Image(Rc::new(Image { content: vec![], center: None, name: "i".into() })), 6 => Value::Audio(Rc::new(Audio { content: vec![], name: "i".into() })), 7 => Value::Native(Rc::new(Nat(0))),
        _ => return None,
    })
}
/// evaluates `x` over `a` of the given kind: 8 is an entity, 9 a closure
fn on_kind<'gc>(mc: &Mutation<'gc>, i: usize, x: Expr) -> End<'gc> {
    match simple_kinds(mc, i) {
        Some(v) => eval(mc, &["a"], vec![("a", v)], x, &Sys::new()),
        None => start(mc, &main_role(&[], vec![locals(&["a"]), assign("a", if i == 8 { e(X::This) } else { clos(&[], &[], vec![]) }), ret(x)]), &Sys::new(), Settings::default(), vec![]).to_end(mc, 4000),
    }
}
/// which kinds each use of a value accepts: nothing is converted silently apart from numbers and text
pub fn kinds_accepted() {
    let i = choice(10);
    let (num, text, boolean_, list_, img, aud, ent, clo) = (i == 1 || i == 2, i == 1 || i == 2 || i == 3, i == 0, i == 4, i == 5, i == 6, i == 8, i == 9);
    let value = || bvar("a");
    let uses: Vec<(Expr, bool)> = vec![
        (e(X::Neg { value: value() }), num || list_),
        (e(X::StrLen { value: value() }), text || list_),
        (e(X::Not { value: value() }), boolean_), // a list is mapped, and its number is no boolean
        (e(X::Conditional { condition: value(), then: bx(num_(1.0)), otherwise: bx(num_(2.0)) }), boolean_),
        (e(X::And { left: bx(boolean(true)), right: value() }), boolean_),
        (e(X::Or { left: value(), right: bx(boolean(true)) }), boolean_),
        (e(X::ListLen { value: value() }), list_),
        (e(X::ListRev { value: value() }), list_),
        (e(X::CostumeName { costume: value() }), img),
        (e(X::SoundName { sound: value() }), aud),
        (e(X::Clone { target: value() }), ent),
        (e(X::CallClosure { new_entity: None, closure: value(), args: vec![] }), clo),
        (e(X::UnicodeToChar { value: value() }), num || list_),
        (e(X::ListGet { list: bx(list(vec![num_(5.0)])), index: value() }), i == 1 || list_),
    ];
    gc(|mc| {
        for (j, (x, ok)) in uses.into_iter().enumerate() {
            let r = on_kind(mc, i, x);
            cover!();
            match r { End::Err(..) => check!(!ok), End::Other if j == 10 => check!(ok), End::Ok(_) => check!(ok), _ => check!(false) }
        }
        // the type question agrees with the kind of the value
        use ast::ValueType as T;
        for (j, ty) in [T::Bool, T::Number, T::Text, T::List, T::Costume, T::Sound, T::Sprite].into_iter().enumerate() {
            let want = match j { 0 => i == 0, 1 => i == 1, 2 => i == 2 || i == 3, 3 => i == 4, 4 => i == 5, 5 => i == 6, _ => i == 8 };
            match on_kind(mc, i, e(X::TypeQuery { value: bvar("a"), ty })) { End::Ok(Value::Bool(b)) => check!(b == want), _ => check!(false) }
        }
    });
}
fn num_(v: f64) -> Expr { num(v) }
/// numeric text works wherever a number does, with the same result
pub fn numeric_text_as_number() {
    let (s, v) = [("2", 2.0), (" 0x2 ", 2.0), ("2e0", 2.0), ("02.0", 2.0)][choice(4)];
    let b = any_int();
    let k = choice(6);
    let x = |a: Expr| match k {
        0 => e(X::Add { values: bx(list(vec![a, var("b")])) }),
        1 => e(X::Less { left: bx(a), right: bvar("b") }),
        2 => e(X::Eq { left: bx(a), right: bvar("b") }),
        3 => e(X::ListGet { list: bx(list(vec![num(1.0), var("b")])), index: bx(a) }),
        4 => e(X::Range { start: bx(num(1.0)), stop: bx(a) }),
        _ => e(X::ListReshape { value: bvar("b"), dims: bx(list(vec![a])) }),
    };
    let p = ev(x(var("a")), &[t(s), n(b)]);
    let q = ev(x(var("a")), &[n(v), n(b)]);
    cover!();
    match (p, q) { (Some(p), Some(q)) => check!(veq(&p, &q)), _ => check!(false) }
}
harnesses! { decimal, radix, any_text, not_numbers, small_round_trip, round_trip, join_spelling, join_spelling_large, kinds_accepted, numeric_text_as_number }
