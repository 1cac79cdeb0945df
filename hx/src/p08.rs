//! P08 control flow, order of evaluation and higher-order list blocks
use crate::b::*; use crate::interp::{machine, Res}; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::vec; use alloc::vec::Vec;

fn x() -> Expr { var("x") }
/// says k and passes v on
fn noisy(v: Expr, k: f64) -> Expr { call("t", vec![v, num(k)]) }
fn project(body: Vec<Stmt>) -> Role {
    let mut r = role(vec![func("main", &["a", "b"], body), func("t", &["v", "k"], vec![say(var("k")), ret(var("v"))])], vec![entity("Stage")]);
    r.globals = vec![vi("x", AV::Number(0.0)), vi("l", AV::List(vec![AV::Number(1.0), AV::Number(2.0)], None))];
    r
}
fn cond(k: usize) -> Expr {
    match k {
        0 => less(x(), var("a")),
        1 => e(X::Eq { left: bx(x()), right: bvar("b") }),
        2 => e(X::And { left: bx(less(x(), var("a"))), right: bx(noisy(less(var("a"), var("b")), 91.0)) }),
        _ => e(X::Or { left: bx(less(var("a"), x())), right: bx(not(less(var("b"), x()))) }),
    }
}
/// simple statements
fn simple() -> Stmt {
    match choice(6) {
        0 => say(x()),
        1 => inc("x", num(1.0)),
        2 => assign("x", var("b")),
        3 => ret(plus(x(), num(10.0))),
        4 => push("l", x()),
        _ => stop_block(),
    }
}
const SHAPES: usize = 11;
/// statements with bodies
fn compound(k: usize, body: Vec<Stmt>) -> Stmt {
    match k {
        0 => iff(cond(0), body),
        1 => ifelse(cond(2), body, vec![say(num(7.0))]),
        2 => ifelse(cond(3), vec![say(num(8.0)), inc("x", num(2.0))], body),
        3 => repeat(var("a"), body),
        4 => forl("i", var("a"), var("b"), { let mut b = vec![say(var("i"))]; b.extend(body); b }),
        5 => each("i", var("l"), { let mut b = body; b.push(say(var("i"))); b }),
        6 => until(cond(1), { let mut b = body; b.push(inc("x", num(1.0))); b.push(iff(less(num(5.0), x()), vec![ret(num(-1.0))])); b }),
        7 => forever({ let mut b = body; b.push(inc("x", num(1.0))); b.push(iff(less(var("b"), x()), vec![ret(num(-2.0))])); b }),
        8 => repeat(minus(var("a"), num(0.5)), body),
        9 => forl("i", var("b"), num(1.5), { let mut b = body; b.push(assign("i", num(50.0))); b }),
        _ => each("i", list(vec![x(), var("b"), var("l")]), { let mut b = vec![assign("x", num(3.0))]; b.extend(body); b }),
    }
}
/// a compound statement around two simple ones, or around another compound one
pub fn statements() {
    let (k, nest) = (choice(SHAPES), choice(2));
    let body = if nest == 0 { vec![simple(), simple()] } else { let k = choice(SHAPES); let s0 = simple(); vec![compound(k, vec![s0])] };
    let st = compound(k, body);
    agree(&project(vec![st, say(x()), ret(len(var("l")))]), &[("a", small()), ("b", small())]);
}
/// two operands, in the quick tier only one of them deep
fn two(d: usize, k: &mut f64) -> (Expr, Expr) {
    let (p, q) = if cfg!(feature = "deep") || d < 2 { (d - 1, d - 1) } else if choice(2) == 0 { (d - 1, 0) } else { (0, d - 1) };
    let l = tree(p, k);
    (l, tree(q, k))
}
fn tree(d: usize, k: &mut f64) -> Expr {
    *k += 1.0;
    let me = *k;
    match choice(if d == 0 { 2 } else { 6 }) {
        0 => noisy(less(var("a"), var("b")), me),
        1 => noisy(less(var("b"), num(2.0)), me),
        2 => not(tree(d - 1, k)),
        3 => { let (l, r) = two(d, k); e(X::And { left: bx(l), right: bx(r) }) }
        4 => { let (l, r) = two(d, k); e(X::Or { left: bx(l), right: bx(r) }) }
        _ => { let c = tree(0, k); let t = tree(0, k); let f = tree(0, k); e(X::Conditional { condition: bx(c), then: bx(t), otherwise: bx(f) }) }
    }
}
/// conditions look at their second operand, and selections at their branches, only when they have to
pub fn conditions() {
    let t = tree(if cfg!(feature = "deep") { 3 } else { 2 }, &mut 0.0);
    let r = match choice(3) { 0 => vec![ret(t)], 1 => vec![ifelse(t, vec![ret(num(1.0))], vec![ret(num(2.0))])], _ => vec![until(t, vec![inc("a", num(1.0)), inc("b", num(3.0)), iff(less(num(5.0), var("a")), vec![ret(num(0.0))])]), ret(var("a"))] };
    agree(&project(r), &[("a", small()), ("b", small())]);
}
/// operands are evaluated once each, from left to right
pub fn order() {
    let (p, q, r) = (noisy(var("a"), 1.0), noisy(var("b"), 2.0), noisy(num(3.0), 3.0));
    let v = match choice(9) {
        0 => plus(p, q),
        1 => minus(p, minus(q, r)),
        2 => less(p, q),
        3 => list(vec![p, list(vec![q]), r]),
        4 => e(X::Add { values: be(X::MakeList { values: vec![p, q, r] }) }),
        5 => call("t", vec![list(vec![p, q]), r]),
        6 => callc(clos(&["u", "v"], &[], vec![ret(list(vec![var("v"), var("u")]))]), vec![p, q]),
        7 => e(X::Eq { left: bx(p), right: bx(q) }),
        _ => e(X::Conditional { condition: bx(less(p, q)), then: bx(r), otherwise: bx(num(5.0)) }),
    };
    agree(&project(vec![ret(v)]), &[("a", n(any_int())), ("b", n(any_int()))]);
}
/// map, keep, find first and combine: results, order of calls, copies of the list, callbacks that change or fail
pub fn higher() {
    let op = choice(4);
    let c = choice(9);
    let m = choice(4);
    let p = if op == 3 { &["p", "q"][..] } else { &["p"][..] };
    let val = || if op == 3 { minus(var("p"), var("q")) } else { var("p") };
    let caps = &["l", "a", "x"];
    let out = |v: Expr| if op == 1 || op == 2 { ret(less(v, var("a"))) } else { ret(plus(v, num(1.0))) };
    let body = match c {
        0 => vec![out(val())],
        1 => vec![say(var("p")), out(val())],
        2 => vec![push("l", num(1.0)), out(val())],
        3 => vec![pop("l"), out(val())],
        4 => vec![iff(less(var("p"), var("a")), vec![out(num(0.0))]), out(val())],
        5 => vec![repeat(num(2.0), vec![inc("x", num(1.0))]), out(val())],
        6 => vec![ret(txt("no"))],
        7 => vec![assign("p", num(1.0)), out(val())],
        _ => vec![iff(less(var("a"), var("p")), vec![throw(txt("big"))]), out(val())],
    };
    let f = bx(clos(p, caps, body));
    let v = e(match op { 0 => X::Map { f, list: bvar("l") }, 1 => X::Keep { f, list: bvar("l") }, 2 => X::FindFirst { f, list: bvar("l") }, _ => X::Combine { f, list: bvar("l") } });
    // in a position where other values are waiting on the stack
    let items = (0..m).map(|k| if k == 0 { var("b") } else { plus(var("b"), num(k as f64)) }).collect();
    let stmts = vec![assign("l", list(items)), assign("r", list(vec![num(70.0), v, num(71.0)])), ret(list(vec![var("r"), var("l"), var("x")]))];
    let mut r = project(stmts);
    r.globals.push(vi("r", AV::Number(0.0)));
    agree(&r, &[("a", n(any_int())), ("b", n(any_int()))]);
}
/// the same blocks nested in each other
pub fn nested() {
    let (o, i) = (choice(4), choice(4));
    let mk = |op: usize, f: Vec<Stmt>, l: Expr| {
        let p: &[&str] = if op == 3 { &["p", "q"] } else { &["p"] };
        let f = bx(clos(p, &["a"], f));
        let list = bx(l);
        e(match op { 0 => X::Map { f, list }, 1 => X::Keep { f, list }, 2 => X::FindFirst { f, list }, _ => X::Combine { f, list } })
    };
    let leaf = |op: usize| vec![if op == 1 || op == 2 { ret(less(var("p"), var("a"))) } else if op == 3 { ret(plus(var("p"), var("q"))) } else { ret(plus(var("p"), var("a"))) }];
    let inner = mk(i, leaf(i), list(vec![var("p"), num(3.0), num(9.0)]));
    let body = if o == 1 || o == 2 { vec![assign("x", inner), ret(less(var("p"), var("a")))] } else { vec![ret(inner)] };
    let l2 = list(vec![num(2.0), num(4.0)]);
    // the outer list is made by a block of the same kind half of the time
    let l2 = if choice(2) == 0 { l2 } else { mk(0, leaf(0), l2) };
    let v = mk(o, body, l2);
    agree(&project(vec![ret(v)]), &[("a", n(any_int())), ("b", n(1.0))]);
}
/// how often loops run and what their variable holds, for all small limits, whole or not
pub fn counts() {
    let frac = [0.0, 0.5, -0.5, 0.25, -0.25][choice(5)];
    let off = || { let k = any_u8(); assume(k < 8); k as f64 - 3.0 };
    let (a, b) = (off(), off());
    let body = vec![say(var("i"))];
    let stmts = match choice(4) {
        0 => vec![forl("i", var("a"), plus(var("b"), num(frac)), body), ret(var("i"))],
        1 => vec![forl("i", plus(var("a"), num(frac)), var("b"), body), ret(var("i"))],
        2 => vec![repeat(plus(var("a"), num(frac)), vec![say(num(1.0))])],
        _ => vec![forl("i", var("a"), var("b"), vec![say(var("i")), assign("b", num(0.0)), assign("i", num(9.0))]), ret(var("i"))],
    };
    agree(&project(stmts), &[("a", n(a)), ("b", n(b))]);
}
/// what is no truth value where one is needed is an error; where none is needed it does no harm
pub fn logic() {
    let odd = || match choice(5) { 0 => var("a"), 1 => txt("true"), 2 => var("l"), 3 => txt("no"), _ => e(X::This) };
    let truth = || less(var("a"), num(2.0));
    // the program, the condition that decides whether the odd operand is looked at, whether it is then an error
    let (v, stmts): (Option<Expr>, Vec<Stmt>) = match choice(12) {
        0 => (Some(e(X::And { left: bx(odd()), right: bx(truth()) })), vec![]),
        1 => (Some(e(X::And { left: bx(truth()), right: bx(odd()) })), vec![]),
        2 => (Some(e(X::Or { left: bx(odd()), right: bx(truth()) })), vec![]),
        3 => (Some(e(X::Or { left: bx(truth()), right: bx(odd()) })), vec![]),
        4 => (Some(e(X::Conditional { condition: bx(odd()), then: bx(num(1.0)), otherwise: bx(num(2.0)) })), vec![]),
        5 => (Some(e(X::And { left: bx(truth()), right: be(X::And { left: bx(truth()), right: bx(odd()) }) })), vec![]),
        6 => (Some(e(X::Or { left: be(X::And { left: bx(truth()), right: bx(odd()) }), right: bx(truth()) })), vec![]),
        7 => (None, vec![iff(odd(), vec![say(num(1.0))])]),
        8 => (None, vec![ifelse(odd(), vec![say(num(1.0))], vec![say(num(2.0))])]),
        9 => (None, vec![until(odd(), vec![say(num(1.0)), stop_block()])]),
        10 => (None, vec![iff(truth(), vec![iff(odd(), vec![say(num(3.0))])])]),
        _ => (Some(not(odd())), vec![]),
    };
    let body = match v { Some(v) => vec![say(num(0.0)), ret(v)], None => stmts };
    let r = meaning_logic(&body);
    let mut all = vec![tryc(body, "err", vec![ret(num(77.0))]), ret(num(78.0))];
    if choice(2) == 1 { all = vec![warp(all)] }
    let a = any_u8();
    let m = machine(&project(all), &[("a", n(a as f64)), ("b", n(1.0))], 64);
    let Res::Val(x) = &m.res else { check!(false); return };
    match truth_of(&r, a < 2) {
        None => { cover!(); check!(veq(x, &n(77.0))) }
        Some(None) => { cover!(); check!(veq(x, &n(78.0)) || veq(x, &V::T("".into()))) }
        Some(Some(t)) => { cover!(); check!(veq(x, &V::B(t))) }
    }
}
/// the expression a body decides on: what it needs of the odd operand
enum Need { Value(Expr), Branch(Expr) }
fn meaning_logic(body: &[Stmt]) -> Need {
    match &body[body.len() - 1].kind {
        K::Return { value } => Need::Value((**value).clone()),
        K::If { condition, then } => match then.first().map(|x| &x.kind) { Some(K::If { condition: c, .. }) => Need::Branch(e(X::And { left: condition.clone(), right: c.clone() })), _ => Need::Branch((**condition).clone()) },
        K::IfElse { condition, .. } | K::UntilLoop { condition, .. } => Need::Branch((**condition).clone()),
        _ => panic!(),
    }
}
/// None: an error; Some(None): no value; Some(Some(t)): the value t
fn truth_of(r: &Need, t: bool) -> Option<Option<bool>> {
    match r { Need::Value(v) => val_of(v, t).map(Some), Need::Branch(v) => val_of(v, t).map(|_| None) }
}
fn val_of(v: &Expr, t: bool) -> Option<bool> {
    match &v.kind {
        X::Less { .. } => Some(t),
        X::And { left, right } => match val_of(left, t)? { true => val_of(right, t), false => Some(false) },
        X::Or { left, right } => match val_of(left, t)? { true => Some(true), false => val_of(right, t) },
        X::Conditional { condition, .. } => val_of(condition, t),
        X::Not { value } => val_of(value, t).map(|x| !x),
        _ => None,
    }
}
/// limits given as texts are the numbers that they are written of, and no limits at all if they are none
pub fn texts() {
    let k = choice(5);
    let t = txt(["2", "0", "10", "no", ""][k]);
    let body = vec![say(var("i")), ret_if()];
    let stmts = match choice(4) {
        0 => vec![forl("i", t, var("a"), body), ret(var("i"))],
        1 => vec![forl("i", var("a"), t, body), ret(var("i"))],
        2 => { if k > 2 { stop() } vec![repeat(t, vec![say(var("a"))])] }
        _ => vec![each("i", t, body), ret(var("i"))],
    };
    agree(&project(stmts), &[("a", small()), ("b", n(1.0))]);
}
fn ret_if() -> Stmt { iff(less(num(4.0), var("i")), vec![ret(list(vec![var("i")]))]) }
/// the operands of every block are evaluated once each, in the order in which they stand in it; one that fails ends the block
pub fn operands() {
    let k = choice(42);
    let (mut i, mut last) = (0.0, None);
    // operand: says which one it is, and fails if it comes after the a-th
    let mut o = |v: Expr| { i += 1.0; last = Some(i); bx(noisy(v, i)) };
    let two = || num(2.0);
    let l = || var("l");
    let ex = |x: X| vec![say_off(e(x))];
    let body = match k {
        0 => { let y = o(two()); let x = o(two()); ex(X::Atan2 { y, x }) }
        1 => { let left = o(two()); let right = o(two()); ex(X::Sub { left, right }) }
        2 => { let left = o(two()); let right = o(two()); ex(X::Div { left, right }) }
        3 => { let left = o(two()); let right = o(two()); ex(X::Mod { left, right }) }
        4 => { let base = o(two()); let power = o(two()); ex(X::Pow { base, power }) }
        5 => { let base = o(two()); let value = o(two()); ex(X::Log { value, base }) }
        6 => { let left = o(two()); let right = o(two()); ex(X::Greater { left, right }) }
        7 => { let left = o(two()); let right = o(two()); ex(X::GreaterEq { left, right }) }
        8 => { let left = o(two()); let right = o(two()); ex(X::Less { left, right }) }
        9 => { let left = o(two()); let right = o(two()); ex(X::LessEq { left, right }) }
        10 => { let left = o(two()); let right = o(two()); ex(X::Eq { left, right }) }
        11 => { let left = o(two()); let right = o(two()); ex(X::Neq { left, right }) }
        12 => { let left = o(two()); let right = o(l()); ex(X::Identical { left, right }) }
        13 => { let index = o(two()); let list = o(l()); ex(X::ListGet { list, index }) }
        14 => { let item = o(two()); let list = o(l()); ex(X::ListCons { item, list }) }
        15 => { let value = o(two()); let list = o(l()); ex(X::ListFind { list, value }) }
        16 => { let list = o(l()); let value = o(two()); ex(X::ListContains { list, value }) }
        17 => { let start = o(two()); let stop = o(two()); ex(X::Range { start, stop }) }
        18 => { let a = o(two()); let b = o(two()); ex(X::Random { a, b }) }
        19 => { let index = o(two()); let string = o(txt("abc")); ex(X::StrGet { string, index }) }
        20 => { let text = o(txt("abc")); let p = o(txt("b")); ex(X::TextSplit { text, mode: ast::TextSplitMode::Custom(p) }) }
        21 => { let value = o(l()); let dims = list(vec![*o(num(1.0)), *o(two())]); ex(X::ListReshape { value, dims: bx(dims) }) }
        22 => { let sources = list(vec![*o(l()), *o(l()), *o(l())]); ex(X::ListCombinations { sources: bx(sources) }) }
        23 => { let v = list(vec![*o(l()), *o(l())]); ex(X::ListCat { lists: bx(v) }) }
        24 => { let v = list(vec![*o(two()), *o(txt("x")), *o(two())]); ex(X::StrCat { values: bx(v) }) }
        25 => { let v = list(vec![*o(two()), *o(two())]); ex(X::Mul { values: bx(v) }) }
        26 => { let v = list(vec![*o(two()), *o(two())]); ex(X::Max { values: bx(v) }) }
        27 => { let args = vec![*o(two()), *o(two()), *o(l())]; ex(X::UnknownBlock { name: "what".into(), args }) }
        28 => { let name = *o(txt("call")); let args = list(vec![*o(two()), *o(two())]); ex(X::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![name, args] }) }
        29 => { let args = vec![("p".into(), *o(two())), ("q".into(), *o(two()))]; ex(X::CallRpc { host: None, service: "s".into(), rpc: "r".into(), args }) }
        30 => { let values = vec![("p".into(), *o(two())), ("q".into(), *o(two()))]; let target = o(txt("t")); ex(X::NetworkMessageReply { target, msg_type: "m".into(), values }) }
        31 => { let values = vec![("p".into(), *o(two())), ("q".into(), *o(two()))]; let target = o(txt("t")); vec![s(K::SendNetworkMessage { target, msg_type: "m".into(), values })] }
        32 => { let who = o(e(X::This)); let f = o(clos(&["u", "v"], &[], vec![ret(var("u"))])); let args = vec![*o(two()), *o(two())]; ex(X::CallClosure { new_entity: Some(who), closure: f, args }) }
        33 => { let value = o(two()); let index = o(two()); let list = o(l()); vec![s(K::ListInsert { list, value, index })] }
        34 => { let value = o(two()); let list = o(l()); vec![s(K::ListInsertLast { list, value })] }
        35 => { let index = o(two()); let list = o(l()); vec![s(K::ListRemove { list, index })] }
        36 => { let index = o(two()); let list = o(l()); let value = o(two()); vec![s(K::ListAssign { list, value, index })] }
        37 => { let list = o(l()); let value = o(two()); vec![s(K::ListAssignLast { list, value })] }
        38 => { let x = o(two()); let y = o(two()); vec![s(K::GotoXY { x, y })] }
        39 => { let x = o(two()); let y = o(two()); vec![s(K::PointTowardsXY { x, y })] }
        40 => { let notes = o(list(vec![num(60.0)])); let beats = o(two()); vec![s(K::PlayNotes { notes, beats, blocking: false })] }
        _ => { let m = o(txt("m")); let t = o(e(X::This)); vec![s(K::SendLocalMessage { target: Some(t), msg_type: m, wait: false })] }
    };
    let count = last.unwrap();
    let mut r = project(vec![tryc(body, "err", vec![])]);
    r.funcs[1].stmts = vec![say(var("k")), iff(less(var("a"), var("k")), vec![throw(txt("no"))]), ret(var("v"))];
    r.globals.push(vi("a", AV::Number(0.0)));
    r.globals.push(vi("off", AV::Number(0.0)));
    r.funcs[0].params = vec![vd("c")];
    r.funcs[0].stmts.insert(0, assign("a", var("c")));
    let a = any_u8();
    let sys = Sys::new();
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("c", nv(a as f64))]);
        run.to_end(mc, 600);
    });
    let mut k = 0;
    for x in sys.log.borrow().iter() {
        if let Ev::Print(_, Some(v)) = x { k += 1; check!(veq(v, &n(k as f64))); }
    }
    let all = (a as f64) >= count;
    if all { cover!(); check!(k == count as usize); return }
    cover!();
    check!(k == a as usize + 1);
}
/// a reporter whose value nobody looks at
fn say_off(v: Expr) -> Stmt { assign("off", v) }
harnesses!(statements, conditions, order, higher, nested, counts, logic, texts, operands);
