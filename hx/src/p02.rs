//! P02 comparison, equality and identity
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::{rc::Rc, string::String, vec, vec::Vec};

type Va<'gc> = Value<'gc, Cu, Sys>;
struct Rel { eq: bool, ne: bool, id: bool, lt: Option<bool>, le: Option<bool>, gt: Option<bool>, ge: Option<bool> }
fn run1<'gc>(mc: &Mutation<'gc>, a: &Va<'gc>, b: &Va<'gc>, x: Expr) -> Option<V> {
    match eval(mc, &["a", "b"], vec![("a", a.clone()), ("b", b.clone())], x, &Sys::new()) { End::Ok(v) => Some(snap(&v)), End::Err(..) => None, _ => panic!() }
}
fn flag(v: &V) -> bool { match v { V::B(x) => *x, _ => panic!("no flag") } }
fn eqs<'gc>(mc: &Mutation<'gc>, a: &Va<'gc>, b: &Va<'gc>) -> Option<(bool, bool, bool)> {
    let (left, right) = (|| bvar("a"), || bvar("b"));
    match run1(mc, a, b, list(vec![e(X::Eq { left: left(), right: right() }), e(X::Neq { left: left(), right: right() }), e(X::Identical { left: left(), right: right() })])) {
        Some(V::L(v)) => Some((flag(&v[0]), flag(&v[1]), flag(&v[2]))),
        None => None,
        _ => panic!(),
    }
}
fn rel<'gc>(mc: &Mutation<'gc>, a: &Va<'gc>, b: &Va<'gc>) -> Rel {
    let (left, right) = (|| bvar("a"), || bvar("b"));
    let (eq, ne, id) = match eqs(mc, a, b) { Some(x) => x, None => panic!("equality failed") };
    let all = |v: Vec<Expr>| match run1(mc, a, b, list(v)) { Some(V::L(v)) => Some((flag(&v[0]), flag(&v[1]))), None => None, _ => panic!() };
    let p = all(vec![e(X::Less { left: left(), right: right() }), e(X::LessEq { left: left(), right: right() })]);
    let q = all(vec![e(X::Greater { left: left(), right: right() }), e(X::GreaterEq { left: left(), right: right() })]);
    Rel { eq, ne, id, lt: p.map(|x| x.0), le: p.map(|x| x.1), gt: q.map(|x| x.0), ge: q.map(|x| x.1) }
}
/// all six relations agree with one another and with `ord` (None: equality is false and ordering an error)
fn agree(r: &Rel, lt: bool, eq: bool) {
    check!(r.eq == eq);
    check!(r.ne == !eq);
    match (r.lt, r.le, r.gt, r.ge) {
        (Some(a), Some(b), Some(c), Some(d)) => { check!(a == lt); check!(b == lt | eq); check!(c == !lt & !eq); check!(d == !lt); }
        _ => check!(false),
    }
}
fn incomparable(r: &Rel) {
    check!(!r.eq); check!(r.ne); check!(!r.id);
    check!(r.lt.is_none() && r.le.is_none() && r.gt.is_none() && r.ge.is_none());
}
pub fn numbers() {
    let (a, b) = (any_num(), any_num());
    gc(|mc| { let r = rel(mc, &nv(a), &nv(b)); cover!(); agree(&r, a < b, a == b); check!(r.id == (a == b)); });
}
pub fn bools() {
    let (a, b) = (any_bool(), any_bool());
    gc(|mc| { let r = rel(mc, &Value::Bool(a), &Value::Bool(b)); cover!(); agree(&r, !a & b, a == b); check!(r.id == (a == b)); });
}
/// numeric text is compared as the number it denotes
pub fn numeric_text() {
    let (s, v): (&str, f64) = [("12", 12.0), (" -7.5 ", -7.5), ("0x10", 16.0), ("1e2", 100.0), ("-0", 0.0), ("0B101", 5.0), ("0o17", 15.0), (".5", 0.5)][choice(8)];
    let b = any_num();
    let flip = choice(2) == 1;
    gc(|mc| {
        let r = if flip { rel(mc, &nv(b), &tv(s)) } else { rel(mc, &tv(s), &nv(b)) };
        cover!();
        agree(&r, if flip { b < v } else { v < b }, v == b);
        check!(!r.id);
    });
}
pub fn numeric_texts() {
    let t: [(&str, Option<f64>); 7] = [("12", Some(12.0)), ("12.0", Some(12.0)), ("0xc", Some(12.0)), ("5", Some(5.0)), (" 5", Some(5.0)), ("5x", None), ("nan", None)];
    let (i, j) = (choice(7), choice(7));
    gc(|mc| {
        let r = rel(mc, &tv(t[i].0), &tv(t[j].0));
        cover!();
        match (t[i].1, t[j].1) {
            (Some(x), Some(y)) => agree(&r, x < y, x == y),
            _ => agree(&r, t[i].0 < t[j].0, i == j),
        }
        check!(r.id == (i == j));
    });
}
/// a number against text that is none: the number is taken as text
pub fn number_and_word() {
    let ns: [(f64, &str); 4] = [(5.0, "5"), (-1.5, "-1.5"), (0.0, "0"), (1e24, "1e24")];
    let ws = ["5x", "", "A", "-1.5b", "1E24z"];
    let (i, j) = (choice(4), choice(5));
    let flip = choice(2) == 1;
    let w = ws[j].to_ascii_lowercase();
    gc(|mc| {
        let (a, b) = (nv(ns[i].0), tv(ws[j]));
        let r = if flip { rel(mc, &b, &a) } else { rel(mc, &a, &b) };
        cover!();
        let lt = if flip { w.as_str() < ns[i].1 } else { ns[i].1 < w.as_str() };
        agree(&r, lt, false);
        check!(!r.id);
    });
}
fn letter() -> u8 { let x = any_u8(); assume((x >= b'A') & (x <= b'Z') | (x >= b'a') & (x <= b'z')); x }
fn low(x: u8) -> u8 { if x <= b'Z' { x + 32 } else { x } }
/// other text compares letter by letter without regard to case
pub fn words() {
    let (m, k) = (choice(3), choice(3));
    let a: Vec<u8> = (0..m).map(|_| letter()).collect();
    let b: Vec<u8> = (0..k).map(|_| letter()).collect();
    let (sa, sb) = (String::from_utf8(a.clone()).unwrap(), String::from_utf8(b.clone()).unwrap());
    // lexicographic, from the end
    let (mut lt, mut eq, mut id) = (m < k, m == k, m == k);
    for i in (0..m.min(k)).rev() { let (x, y) = (low(a[i]), low(b[i])); lt = (x < y) | (x == y) & lt; eq &= x == y; id &= a[i] == b[i]; }
    gc(|mc| { let r = rel(mc, &tv(&sa), &tv(&sb)); cover!(); agree(&r, lt, eq); check!(r.id == id); });
}
pub fn unicode_words() {
    let ws = ["straße", "STRASSE", "ÉA", "éa", "日本", "ſ", "S"];
    let class = [0, 0, 1, 1, 2, 3, 3];
    let (i, j) = (choice(7), choice(7));
    gc(|mc| {
        let r = rel(mc, &tv(ws[i]), &tv(ws[j]));
        cover!();
        check!(r.eq == (class[i] == class[j])); check!(r.ne != r.eq); check!(r.id == (i == j));
        let back = rel(mc, &tv(ws[j]), &tv(ws[i]));
        check!(back.eq == r.eq && back.lt == r.gt && back.le == r.ge);
    });
}
fn shape(i: usize) -> V {
    let m = || n(any_int());
    match i { 0 => l(vec![]), 1 => l(vec![m()]), 2 => l(vec![m(), m()]), 3 => l(vec![m(), l(vec![m()])]), 4 => l(vec![l(vec![m(), m()]), m()]), _ => l(vec![l(vec![]), m()]) }
}
/// 0 less, 1 equal, 2 greater, 3 incomparable
fn cmp(a: &V, b: &V) -> u8 {
    match (a, b) {
        (V::N(x), V::N(y)) => if x < y { 0 } else if x == y { 1 } else { 2 },
        (V::L(x), V::L(y)) => {
            for i in 0..x.len().min(y.len()) { let c = cmp(&x[i], &y[i]); if c != 1 { return c; } }
            if x.len() < y.len() { 0 } else if x.len() == y.len() { 1 } else { 2 }
        }
        _ => 3,
    }
}
/// lists compare element by element, then by length; the first pair that differs decides
pub fn lists() {
    let (i, j) = (choice(6), choice(6));
    let (a, b) = (shape(i), shape(j));
    gc(|mc| {
        let (x, y) = (val(mc, &a), val(mc, &b));
        let r = rel(mc, &x, &y);
        let c = cmp(&a, &b);
        if c == 3 { cover!(); incomparable(&r); } else { cover!(); agree(&r, c == 0, c == 1); }
        check!(!r.id);
        // a list equals itself and its copies
        let own = rel(mc, &x, &x);
        check!(own.id); agree(&own, false, true);
        let copy = rel(mc, &x, &val(mc, &a));
        check!(!copy.id); agree(&copy, false, true);
    });
}
fn kinds<'gc>(mc: &Mutation<'gc>) -> Vec<Va<'gc>> {
    let img = |c: u8| Value::Image(Rc::new(Image { content: vec![c], center: None, name: "i".into() }));
    let aud = |c: u8| Value::Audio(Rc::new(Audio { content: vec![c], name: "i".into() }));
    let mut v = vec![Value::Bool(true), nv(1.0), tv("true"), lval(mc, vec![]), img(0), img(0), aud(0), aud(0), Value::Native(Rc::new(Nat(0))), Value::Native(Rc::new(Nat(0)))];
    for _ in 0..2 {
        let mut r = start(mc, &main_role(&[], vec![ret(list(vec![e(X::This), clos(&[], &[], vec![])]))]), &Sys::new(), Settings::default(), vec![]);
        match r.to_end(mc, 100) { End::Ok(Value::List(x)) => v.extend(x.borrow().iter().cloned()), _ => panic!() }
    }
    v
}
/// values of different kinds are never equal nor ordered; objects equal only themselves
pub fn kinds_apart() {
    let i = choice(14);
    gc(|mc| {
        let v = kinds(mc);
        for j in 0..v.len() {
            let both_text = i == 1 && j == 2 || i == 2 && j == 1;
            if both_text { continue; }
            let r = rel(mc, &v[i], &v[j]);
            if i == j { cover!(); check!(r.id); agree(&r, false, true); } else { cover!(); incomparable(&r); }
        }
        // inside lists as well
        for j in 0..v.len() {
            if i == 1 && j == 2 || i == 2 && j == 1 { continue; }
            let r = rel(mc, &lval(mc, vec![v[i].clone()]), &lval(mc, vec![v[j].clone()]));
            if i == j { agree(&r, false, true); } else { incomparable(&r); }
        }
    });
}
/// cyclic lists: an error or an answer, never an endless comparison
pub fn cycles() {
    let k = choice(3);
    let (x, y) = (any_int(), any_int());
    gc(|mc| {
        let (a, b) = (lval(mc, vec![nv(x)]), lval(mc, vec![nv(y)]));
        let push = |l: &Va<'_>, v: &Va<'_>| ();
        let _ = push;
        match (&a, &b) { (Value::List(p), Value::List(q)) => match k {
            0 => { p.borrow_mut(mc).push_back(a.clone()); q.borrow_mut(mc).push_back(b.clone()); }
            1 => { p.borrow_mut(mc).push_back(b.clone()); q.borrow_mut(mc).push_back(a.clone()); }
            _ => { p.borrow_mut(mc).push_back(a.clone()); q.borrow_mut(mc).push_back(lval(mc, vec![nv(y)])); }
        }, _ => () }
        match eqs(mc, &a, &b) {
            Some((eq, ne, id)) => { cover!(); check!(!eq & ne & !id); check!((x != y) | (k == 2)); }
            None => { cover!(); check!(x == y); }
        }
    });
}
/// shared parts do not count as cycles
pub fn sharing() {
    let (x, y) = (any_int(), any_int());
    gc(|mc| {
        let (p, q) = (lval(mc, vec![nv(x)]), lval(mc, vec![nv(y)]));
        let (a, b) = (lval(mc, vec![p.clone(), p.clone()]), lval(mc, vec![q.clone(), q.clone()]));
        cover!();
        agree(&rel(mc, &a, &b), x < y, x == y);
        agree(&rel(mc, &a, &lval(mc, vec![p.clone(), lval(mc, vec![nv(x)])])), false, true);
    });
}
harnesses! { numbers, bools, numeric_text, numeric_texts, number_and_word, words, unicode_words, lists, kinds_apart, cycles, sharing }
