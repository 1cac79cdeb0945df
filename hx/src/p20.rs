//! P20 compiled code: constants and distances
use crate::b::*; use crate::interp::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::string::String; use alloc::vec; use alloc::vec::Vec;

fn pad(n: usize) -> Vec<Stmt> { (0..n).map(|_| assign("z", num(1.0))).collect() }
fn padded(n: usize, v: Vec<Stmt>) -> Vec<Stmt> { let mut p = pad(n); p.extend(v); p }
fn result(r: &Role) -> Option<V> {
    let sys = Sys::new();
    let mut out = None;
    gc(|mc| { out = match start(mc, r, &sys, Settings::default(), vec![]).to_end(mc, 400) { End::Ok(v) => Some(snap(&v)), _ => None } });
    out
}
/// a number in a program is exactly that number, or the program is rejected
pub fn numbers() {
    let v = match choice(3) { 0 => any_f64(), 1 => any_i32() as f64, _ => any_i32() as f64 / 64.0 };
    let r = match choice(2) { 0 => main_role(&[], vec![ret(num(v))]), _ => main_role(&[], vec![locals(&["x"]), assign("x", num(3.0)), ret(list(vec![var("x"), num(v), var("x")]))]) };
    match ByteCode::compile(&r) {
        Err(_) => check!(!v.is_finite()),
        Ok(_) => {
            if !v.is_finite() { check!(result(&r).is_none()); return }
            cover!();
            let w = n(norm(v));
            match result(&r) { Some(V::L(x)) => check!(veq(&V::L(x), &l(vec![n(3.0), w, n(3.0)]))), Some(x) => check!(veq(&x, &w)), None => check!(false) }
        }
    }
}
fn ascii() -> u8 { let c = any_u8(); assume((c >= 0x20) & (c < 0x7f)); c }
/// texts in a program are exactly those texts, whatever other texts there are
pub fn texts() {
    let (i, j) = (choice(4), choice(3));
    let a: Vec<u8> = (0..i).map(|_| ascii()).collect();
    let b: Vec<u8> = (0..j).map(|_| ascii()).collect();
    let (a, b): (String, String) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
    let r = main_role(&[], vec![locals(&["ab"]), assign("ab", txt(&a)), ret(list(vec![txt(&b), var("ab"), txt("0"), txt(&a)]))]);
    cover!();
    match result(&r) { Some(x) => check!(veq(&x, &l(vec![t(&b), t(&a), t("0"), t(&a)]))), None => check!(false) }
}
/// texts that look like numbers stay texts, spelled as they were
pub fn numeric_texts() {
    const C: [char; 6] = ['0', '1', '9', '-', '+', '.'];
    let k = 1 + choice(4);
    let a: String = (0..k).map(|_| C[choice(6)]).collect();
    let r = main_role(&[], vec![ret(list(vec![txt(&a), num(1.0), txt("8191"), txt("-8192"), txt("8192"), txt("2147483648")]))]);
    cover!();
    match result(&r) { Some(x) => check!(veq(&x, &l(vec![t(&a), n(1.0), t("8191"), t("-8192"), t("8192"), t("2147483648")]))), None => check!(false) }
}
/// colours are the number of their bytes
pub fn colours() {
    let c = (any_u8(), any_u8(), any_u8(), any_u8());
    let r = main_role(&[], vec![s(K::SetPenColor { color: c })]);
    let sys = Sys::new();
    gc(|mc| { match start(mc, &r, &sys, Settings::default(), vec![]).to_end(mc, 50) { End::Ok(_) => (), _ => check!(false) } });
    cover!();
    let w = ((c.3 as u32) << 24 | (c.0 as u32) << 16 | (c.1 as u32) << 8 | c.2 as u32) as f64;
    match &sys.log.borrow()[..] { [Ev::SetProp(p, v)] => check!(*p == Property::PenColor as u8 && veq(v, &n(w))), _ => check!(false) };
}
/// the program with jumps of every kind, with filling between all parts
fn jumps(k: usize, p: usize, q: usize) -> Role {
    let sayv = |v: f64| say(num(v));
    let mut body = pad(p);
    body.push(match k {
        0 => ifelse(less(var("a"), var("b")), padded(q, vec![sayv(1.0)]), padded(p % 3, vec![sayv(2.0)])),
        1 => repeat(num(2.0), padded(q, vec![inc("x", var("a")), sayv(3.0)])),
        2 => until(less(num(1.0), var("x")), padded(q, vec![inc("x", num(1.0)), iff(less(var("b"), var("a")), pad(p % 5))])),
        3 => tryc(padded(q, vec![iff(less(var("a"), var("b")), vec![throw(txt("t"))]), sayv(4.0)]), "er", padded(q % 4, vec![say(var("er"))])),
        4 => say(callc(clos(&["v"], &["a", "b"], padded(q, vec![ret(plus(var("v"), var("b")))])), vec![var("a")])),
        5 => say(call("f", vec![var("a")])),
        6 => each("i", list(vec![var("a"), var("b")]), padded(q, vec![say(var("i"))])),
        7 => forl("i", num(1.0), num(3.0), padded(q, vec![iff(less(var("i"), num(2.0)), vec![sayv(5.0)]), say(e(X::And { left: bx(less(var("a"), var("b"))), right: bx(less(var("i"), num(3.0))) }))])),
        8 => warp(padded(q, vec![sayv(6.0), iff(less(var("a"), var("b")), vec![ret(num(60.0))])])),
        _ => say(e(X::Map { f: bx(clos(&["v"], &["a"], padded(q, vec![ret(plus(var("v"), var("a")))]))), list: bx(list(vec![var("a"), var("b")])) })),
    });
    body.extend([sayv(9.0), iff(less(var("x"), var("b")), vec![sayv(10.0)])]);
    let mut r = role(vec![func("main", &["a", "b"], body), func("g", &["v"], padded(q, vec![ret(plus(var("v"), num(2.0)))])), func("f", &["v"], padded(q, vec![ret(call("g", vec![var("v")]))]))], vec![entity("Stage")]);
    r.globals = vec![vi("x", AV::Number(0.0)), vi("z", AV::Number(0.0))];
    r
}
/// jumps, calls, closures and handlers lead to their code at every distance
pub fn distances() {
    let k = choice(10);
    let (p, q) = (choice(32), [0, 1, 2, 20, 27][choice(if cfg!(feature = "deep") { 5 } else { 3 })]);
    let r = jumps(k, p, q);
    cover!();
    agree(&r, &[("a", n(any_int())), ("b", n(any_int()))]);
}
/// the same far apart: addresses of three bytes
pub fn far() {
    let k = choice(10);
    let (p, q) = (if cfg!(feature = "deep") { 2326 + choice(16) } else { 2337 }, if k == 5 { 2 } else { choice(2) * 8 });
    let r = jumps(k, p, q);
    let (a, b) = (any_int(), if cfg!(feature = "deep") { any_int() } else { 5.0 });
    // the filling is left out of the meaning: it only sets z
    let small = { let mut s = jumps(k, 0, q); s.funcs[0].stmts.insert(0, assign("z", num(1.0))); s };
    let args = [("a", n(a)), ("b", n(b))];
    let m = meaning(&small, &args, 1024);
    let w = machine_long(&r, &args, 1024, 9000);
    let (res, said, _, vars) = same(&m, &w);
    cover!();
    check!(res); check!(said); check!(vars);
}
/// lists of constants, nested, are a new list of exactly those constants wherever they stand and each time they are reached; so are pi and e
pub fn literals() {
    use core::f64::consts;
    let shape = choice(6);
    let x = any_i32() as f64 / 4.0;
    let b = any_bool();
    let lit = |v: Vec<AV>| e(X::Value(AV::List(v, None)));
    let pi = || AV::Constant(ast::Constant::Pi);
    let ex = || AV::Constant(ast::Constant::E);
    let (v, w): (Vec<AV>, Vec<V>) = match shape {
        0 => (vec![], vec![]),
        1 => (vec![AV::Number(x)], vec![n(norm(x))]),
        2 => (vec![pi(), AV::Number(x), ex()], vec![n(consts::PI), n(norm(x)), n(consts::E)]),
        3 => (vec![AV::List(vec![AV::Number(x), AV::List(vec![], None)], None), AV::String("12".into())], vec![l(vec![n(norm(x)), l(vec![])]), t("12")]),
        4 => (vec![AV::Bool(b), AV::String("".into()), AV::Number(1.0)], vec![V::B(b), t(""), n(1.0)]),
        _ => (vec![AV::List(vec![AV::Number(1.0), AV::Number(2.0)], None), AV::List(vec![AV::Number(3.0), AV::Number(x)], None)], vec![ln(&[1.0, 2.0]), l(vec![n(3.0), n(norm(x))])]),
    };
    let (prog, want) = match choice(5) {
        0 => (vec![ret(list(vec![num(7.0), lit(v), num(8.0)]))], l(vec![n(7.0), l(w), n(8.0)])),
        // copied, joined, combined
        1 => (vec![ret(list(vec![e(X::CopyList { list: bx(lit(v.clone())) }), e(X::ListCat { lists: bx(lit(vec![AV::List(v, None), AV::List(vec![AV::Number(5.0)], None)])) })]))], { let mut y = w.clone(); y.push(n(5.0)); l(vec![l(w), l(y)]) }),
        // a new one each time
        2 => (vec![locals(&["r"]), assign("r", list(vec![])), repeat(num(2.0), vec![locals(&["q"]), assign("q", lit(v)), push("q", num(9.0)), push("r", var("q"))]), ret(var("r"))], { let mut y = w; y.push(n(9.0)); l(vec![l(y.clone()), l(y)]) }),
        3 => (vec![locals(&["r"]), assign("r", list(vec![])), each("i", lit(v), vec![push("r", var("i"))]), ret(var("r"))], l(w)),
        _ => (vec![ret(list(vec![e(X::Value(pi())), e(X::Value(ex())), e(X::ListLen { value: bx(lit(v)) })]))], l(vec![n(consts::PI), n(consts::E), n(w.len() as f64)])),
    };
    cover!();
    match result(&main_role(&[], prog)) { Some(r) => check!(veq(&r, &want)), None => check!(false) }
}
harnesses!(numbers, texts, numeric_texts, colours, distances, far, literals);
