//! P25 values leave and enter the machine unchanged
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::format; use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::json::{Json, JsonNumber};
use netsblox_vm::runtime::SimpleValue as S;

fn number(v: f64) -> S { S::Number(Number::new(v).unwrap()) }
fn text(v: &str) -> S { S::Text(v.into()) }
fn eq(a: &S, b: &S) -> bool {
    match (a, b) {
        (S::Number(x), S::Number(y)) => x.get().to_bits() == y.get().to_bits(),
        (S::List(x), S::List(y)) => { if x.len() != y.len() { return false } let mut r = true; for i in 0..x.len() { r &= eq(&x[i], &y[i]) } r }
        _ => a == b,
    }
}
fn image(center: Option<(f64, f64)>, content: Vec<u8>, name: &str) -> Image { Image { content, center: center.map(|(x, y)| (Number::new(x).unwrap(), Number::new(y).unwrap())), name: name.into() } }
/// plain values
const LEAVES: usize = 9;
fn leaf(k: usize) -> S {
    match k {
        0 => S::Bool(any_bool()), 1 => number(any_num()), 2 => text(""), 3 => text("t é"), 4 => S::List(vec![]),
        5 => S::List(vec![number(any_num()), S::List(vec![text("12"), S::Bool(false)])]), 6 => number(any_int()),
        7 => S::Image(image(None, vec![any_u8(), 2], "im")), _ => S::Audio(Audio { content: vec![any_u8()], name: "au".into() }),
    }
}
fn nest(k: usize, a: S, b: S) -> S { match k { 0 => a, 1 => S::List(vec![a, b]), 2 => S::List(vec![b, S::List(vec![S::List(vec![a])])]), _ => S::List(vec![S::List(vec![a.clone(), b]), a]) } }
fn media(v: &S) -> bool { match v { S::List(x) => x.iter().any(media), S::Image(_) | S::Audio(_) => true, _ => false } }
/// into the machine and out again; lists become lists of their own
pub fn inside() {
    let v = nest(choice(4), leaf(choice(LEAVES)), leaf(choice(LEAVES)));
    gc(|mc| {
        let x: Value<'_, Cu, Sys> = Value::from_simple(mc, v.clone());
        cover!();
        match x.to_simple() { Ok(y) => check!(eq(&y, &v)), Err(_) => check!(false) }
    });
}
/// only what is not cyclic and has no code, entities or things of the system in it can leave
pub fn leaving() {
    let r = main_role(&[], vec![ret(list(vec![clos(&[], &[], vec![]), e(X::This)]))]);
    gc(|mc| {
        let End::Ok(v) = start(mc, &r, &Sys::new(), Settings::default(), vec![]).to_end(mc, 50) else { check!(false); return };
        let Value::List(parts) = v else { check!(false); return };
        let (f, me) = (parts.borrow()[0].clone(), parts.borrow()[1].clone());
        let k = choice(6);
        let n = any_num();
        let inner = lval(mc, vec![nv(n)]);
        let Value::List(cell) = &inner else { return };
        let bad: Value<'_, Cu, Sys> = match k { 0 => f, 1 => me, 2 => Value::Native(Rc::new(Nat(1))), 3 => { cell.borrow_mut(mc).push_back(inner.clone()); inner.clone() } 4 => { let o = lval(mc, vec![tv("x"), inner.clone()]); cell.borrow_mut(mc).push_back(o.clone()); o } _ => inner.clone() };
        let at = choice(4);
        let x = match at { 0 => bad, 1 => lval(mc, vec![bad.clone(), bad]), 2 => lval(mc, vec![nv(1.0), lval(mc, vec![lval(mc, vec![bad])])]), _ => lval(mc, vec![lval(mc, vec![bad.clone()]), bad]) };
        cover!();
        let got = x.to_simple();
        let one = || S::List(vec![number(n)]);
        match got {
            Ok(y) => { check!(k == 5); let w = match at { 0 => one(), 1 => S::List(vec![one(), one()]), 2 => S::List(vec![number(1.0), S::List(vec![S::List(vec![one()])])]), _ => S::List(vec![S::List(vec![one()]), one()]) }; check!(eq(&y, &w)) }
            Err(e) => check!(match e { ToSimpleError::Cyclic => k == 3 || k == 4, ToSimpleError::ComplexType(_) => k < 3 }),
        };
    });
}
/// as JSON and back
pub fn json() {
    let v = nest(choice(4), leaf(choice(LEAVES)), leaf(choice(LEAVES)));
    let has = media(&v);
    cover!();
    match v.clone().into_json::<Cu, Sys>() {
        Err(_) => check!(has),
        Ok(j) => { check!(!has); match S::from_json(j) { Ok(x) => check!(eq(&x, &v)), Err(_) => check!(false) } }
    }
    match S::from_netsblox_json(v.clone().into_netsblox_json()) { Ok(x) => check!(eq(&x, &v)), Err(_) => check!(false) }
}
/// a JSON value and what it is in the machine; none if it cannot be
const KINDS: usize = 10;
fn from_outside(k: usize) -> (Json, Option<S>) {
    let o = |v: Vec<(&str, Json)>| Json::Object(v.into_iter().map(|(k, v)| (String::from(k), v)).collect());
    match k {
        0 => (Json::Null, None),
        1 => { let b = any_bool(); (Json::Bool(b), Some(S::Bool(b))) }
        2 => { let x = any_i32() as i64; (Json::Number(x.into()), Some(number(x as f64))) }
        3 => { let x = [u64::MAX, 1 << 63, (1 << 53) + 1, 7][choice(4)]; (Json::Number(x.into()), Some(number(x as f64))) }
        4 => { let x = any_f64(); assume(x.is_finite()); (Json::Number(JsonNumber::from_f64(x).unwrap()), Some(number(x))) }
        5 => (Json::String("a<b".into()), Some(text("a<b"))),
        6 => (Json::Array(vec![]), Some(S::List(vec![]))),
        7 => (o(vec![]), Some(S::List(vec![]))),
        8 => { let x = any_num(); (o(vec![("k", Json::Number(JsonNumber::from_f64(x).unwrap()))]), Some(S::List(vec![S::List(vec![text("k"), number(x)])]))) }
        _ => (Json::Array(vec![Json::Bool(true), Json::Null]), None),
    }
}
/// JSON from outside: objects are lists of pairs, null is nothing the machine knows
pub fn arriving() {
    let ((a, wa), (b, wb)) = (from_outside(choice(KINDS)), from_outside(choice(KINDS)));
    let (j, want) = match choice(3) {
        0 => (Json::Array(vec![a, b]), wa.zip(wb).map(|(a, b)| S::List(vec![a, b]))),
        1 => (Json::Array(vec![Json::Array(vec![b]), a]), wa.zip(wb).map(|(a, b)| S::List(vec![S::List(vec![b]), a]))),
        _ => (Json::Object([(String::from("p"), a), (String::from("q"), b)].into_iter().collect()), wa.zip(wb).map(|(a, b)| S::List(vec![S::List(vec![text("p"), a]), S::List(vec![text("q"), b])]))),
    };
    cover!();
    for r in [S::from_json(j.clone()).ok(), S::from_netsblox_json(j).ok()] { match (&r, &want) { (Some(x), Some(y)) => check!(eq(x, y)), (None, None) => (), _ => check!(false) } }
}
fn base64(v: &[u8]) -> String {
    let c = |x: u32| { let x = (x & 63) as u8; (if x < 26 { b'A' + x } else if x < 52 { b'a' + x - 26 } else if x < 62 { b'0' + x - 52 } else if x == 62 { b'+' } else { b'/' }) as char };
    let mut o = String::new();
    for g in v.chunks(3) {
        let w = (g[0] as u32) << 16 | (*g.get(1).unwrap_or(&0) as u32) << 8 | *g.get(2).unwrap_or(&0) as u32;
        o.push(c(w >> 18)); o.push(c(w >> 12));
        o.push(if g.len() > 1 { c(w >> 6) } else { '=' }); o.push(if g.len() > 2 { c(w) } else { '=' });
    }
    o
}
/// images and sounds have the form NetsBlox knows and come back from it
pub fn contents() {
    let n = choice(5);
    let mut c: Vec<u8> = (0..n as u8).map(|i| [0x00, 0xff, 0x3e, 0xbf][i as usize]).collect();
    if n > 0 { let i = choice(n); c[i] = any_u8(); if cfg!(feature = "deep") { c[(i + 1) % n] = any_u8() } }
    let sound = choice(2) == 1;
    let v = if sound { S::Audio(Audio { content: c.clone(), name: "nm".into() }) } else { S::Image(image(None, c.clone(), "nm")) };
    let j = v.clone().into_netsblox_json();
    cover!();
    let want = if sound { format!("<sound name=\"nm\" sound=\"data:audio/mpeg;base64,{}\" />", base64(&c)) } else { format!("<costume name=\"nm\" image=\"data:image/png;base64,{}\" />", base64(&c)) };
    match &j { Json::String(x) => check!(*x == want), _ => check!(false) }
    match S::from_netsblox_json(j) { Ok(x) => check!(eq(&x, &v)), Err(_) => check!(false) }
}
/// names and centers survive, whatever characters they have
pub fn names() {
    const CENTERS: [Option<(f64, f64)>; 5] = [None, Some((0.0, 4.5)), Some((-12.125, 1e300)), Some((1e-7, 480.0)), Some((0.1, -0.3))];
    let mut nm: String = ["", "a", "&", "é<"][choice(4)].into();
    let ch = any_u8();
    assume((ch >= 0x20) & (ch < 0x7f));
    nm.push(ch as char);
    if cfg!(feature = "deep") { nm.push(any_char()) }
    nm.push_str(["", "mp;", " \"b'"][choice(3)]);
    let c = CENTERS[choice(5)];
    let sound = choice(2) == 1;
    let v = if sound { S::Audio(Audio { content: vec![1, 2], name: nm.as_str().into() }) } else { S::Image(image(c, vec![1, 2], &nm)) };
    let v = if choice(2) == 0 { v } else { S::List(vec![v]) };
    cover!();
    match S::from_netsblox_json(v.clone().into_netsblox_json()) { Ok(x) => check!(eq(&x, &v)), Err(_) => check!(false) }
}
/// texts that are no images or sounds stay the texts they are
pub fn texts() {
    let c = any_u8();
    assume((c >= 0x20) & (c < 0x7f));
    let c = c as char;
    let x: String = match choice(10) {
        0 => format!("{}", c), 1 => format!("{}{}", c, any_char()), 2 => format!("<{}", c), 3 => format!("<{}/>", c), 4 => format!("<costume{}", c), 5 => format!("<sound {}", c),
        6 => format!("<costume name=\"{}\"/>", c), 7 => format!("<costume {}>", c), 8 => format!("x<sound sound=\"data:audio/mpeg;base64,\"/>{}", c), _ => format!("<sounds{} sound=\"data:audio/mpeg;base64,\"/>", c),
    };
    cover!();
    match S::from_netsblox_json(Json::String(x.clone())) { Ok(S::Text(y)) => check!(y.as_str() == x), _ => check!(false) }
    match S::from_json(Json::String(x.clone())) { Ok(S::Text(y)) => check!(y.as_str() == x), _ => check!(false) }
}
fn any_char() -> char { let c = any_u8(); assume((c >= 0x20) & (c < 0x7f)); c as char }
/// what NetsBlox may send: other orders, formats and attributes; broken ones are errors
pub fn variants() {
    let good = |v: S| Some(v);
    let im = |c, n: &str| good(S::Image(image(c, vec![1, 2, 3], n)));
    let (x, want) = match choice(14) {
        0 => ("<costume image=\"data:image/jpeg;base64,AQID\" name=\"n\"/>", im(None, "n")),
        1 => ("<costume image=\"data:image/png;base64,AQID\"/>", im(None, "untitled")),
        2 => ("<costume center-x=\"1.5\" image=\"data:image/png;base64,AQID\" center-y=\"-2\" name=\"n\" collabId=\"item_4\"></costume>", im(Some((1.5, -2.0)), "n")),
        3 => ("<costume center-x=\"1.5\" image=\"data:image/png;base64,AQID\"/>", im(None, "untitled")),
        4 => ("<costume name='q' image='data:image/svg+xml;base64,AQID'/>", im(None, "q")),
        5 => ("<costume center-x=\"one\" center-y=\"1\" image=\"data:image/png;base64,AQID\"/>", None),
        6 => ("<costume center-x=\"1\" center-y=\"inf\" image=\"data:image/png;base64,AQID\"/>", None),
        7 => ("<costume image=\"data:image/png;base64,A\"/>", None),
        8 => ("<costume image=\"data:audio/mpeg;base64,AQID\"/>", None),
        9 => ("<costume image=\"AQID\"/>", None),
        10 => ("<sound sound=\"data:audio/wav;base64,AQID\" name=\"n\"/>", good(S::Audio(Audio { content: vec![1, 2, 3], name: "n".into() }))),
        11 => ("<sound sound=\"data:image/png;base64,AQID\"/>", None),
        12 => ("<sound sound=\"data:audio/mpeg;base64,A?ID\"/>", None),
        _ => ("<sound name=\"a&amp;b&#33;\" sound=\"data:audio/mpeg;base64,AQID\"/>", good(S::Audio(Audio { content: vec![1, 2, 3], name: "a&b!".into() }))),
    };
    cover!();
    let o = |v| Json::Object([(String::from("k"), v)].into_iter().collect());
    let x = Json::String(x.into());
    let pair = |v| S::List(vec![S::List(vec![text("k"), v])]);
    let (j, want) = match choice(4) {
        0 => (x, want),
        1 => (Json::Array(vec![Json::Array(vec![Json::Bool(true), x])]), want.map(|w| S::List(vec![S::List(vec![S::Bool(true), w])]))),
        2 => (o(x), want.map(pair)),
        _ => (Json::Array(vec![o(Json::Array(vec![x])), Json::Bool(true)]), want.map(|w| S::List(vec![pair(S::List(vec![w])), S::Bool(true)]))),
    };
    match (S::from_netsblox_json(j), want) { (Ok(v), Some(w)) => check!(eq(&v, &w)), (Err(_), None) => (), _ => check!(false) }
}
harnesses!(inside, leaving, json, arriving, contents, names, texts, variants);
