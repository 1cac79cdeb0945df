//! P07 which variable a name means, and who shares it
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::vec; use alloc::vec::Vec;

fn x() -> Expr { var("x") }
/// the actions programs are made of
const ACTIONS: usize = 15;
fn action(k: usize) -> Vec<Stmt> {
    match k {
        0 => vec![locals(&["x"])],
        1 => vec![assign("x", var("a"))],
        2 => vec![inc("x", var("b"))],
        3 => vec![assign("y", x())],
        4 => vec![assign("f", clos(&[], &["x"], vec![inc("x", num(1.0)), ret(x())]))],
        5 => vec![say(callc(var("f"), vec![]))],
        6 => vec![assign("f", clos(&[], &[], vec![assign("x", num(50.0)), ret(x())]))],
        7 => vec![calls("g", vec![x()])],
        8 => vec![calls("h", vec![txt("x"), var("b")])],
        9 => vec![say(callc_on(ent("Other"), var("f"), vec![]))],
        10 => vec![assign("y", callc(clos(&["x"], &["x"], vec![inc("x", num(3.0)), ret(x())]), vec![var("b")]))],
        11 => vec![assign("f", call("make", vec![x()]))],
        13 => vec![s(K::IfElse { condition: be(X::Less { left: bx(x()), right: bvar("a") }), then: vec![inc("x", num(4.0))], otherwise: vec![locals(&["x"]), assign("x", num(3.0))] })],
        12 => vec![s(K::ForLoop { var: lv("x"), start: bx(num(1.0)), stop: bx(num(2.0)), stmts: vec![inc("y", x())] })],
        _ => vec![s(K::CallFn { function: fref("u"), args: vec![txt("z"), var("a")], upvars: vec![lv("z")] }), inc("y", var("z"))],
    }
}
fn project(body: Vec<Stmt>) -> Role {
    let mut st = entity("Stage"); let mut other = entity("Other");
    st.fields = vec![vi("x", AV::Number(10.0)), vi("w", AV::Number(5.0))];
    other.fields = vec![vi("x", AV::Number(20.0)), vi("w", AV::Number(6.0))];
    let mut h = func("h", &["up", "v"], vec![assign("up", var("v")), inc("x", num(100.0))]); h.upvars = vec![lv("up")];
    let mut u = func("u", &["up", "v"], vec![assign("up", var("v"))]); u.upvars = vec![lv("up")];
    let mut r = role(vec![
        func("main", &["a", "b"], body),
        func("g", &["p"], vec![assign("p", num(9.0)), inc("x", num(7.0)), inc("y", num(8.0)), locals(&["x", "a"]), assign("x", num(1.0)), assign("a", x())]),
        h, u,
        func("make", &["x"], vec![ret(clos(&[], &["x"], vec![inc("x", num(2.0)), ret(x())]))]),
    ], vec![st, other]);
    r.globals = vec![vi("x", AV::Number(30.0)), vi("y", AV::Number(40.0)), vi("f", AV::Number(0.0))];
    r
}
/// every short program over the actions: values said, results and all variables afterwards
pub fn programs() {
    let k = if cfg!(feature = "deep") { 5 } else { 4 };
    let mut body = vec![locals(&["f"])];
    let with_local = choice(2) == 1;
    if with_local { body.push(locals(&["x"])); body.push(assign("x", num(60.0))); }
    for _ in 0..k - 1 { body.extend(action(choice(ACTIONS))); }
    body.push(say(x())); body.push(say(var("y")));
    cover!();
    agree(&project(body), &[("a", n(any_int())), ("b", n(any_int()))]);
}
/// a block that brings a variable of its own brings a new one: whoever holds an earlier variable of that name keeps that
pub fn brought() {
    let hold = choice(3);
    let mut body = vec![locals(&["f", "i"]), assign("i", num(70.0)),
        match hold { 0 => assign("f", clos(&[], &["i"], vec![inc("i", num(1.0)), ret(var("i"))])), 1 => assign("f", call("keep", vec![var("i")])), _ => tryc(vec![throw(txt("first"))], "i", vec![assign("f", clos(&["z"], &["i"], vec![ret(var("i"))]))]) }];
    let f = |b: Vec<Expr>| say(callc(var("f"), if hold == 2 { vec![num(0.0)] } else { b }));
    let two = || list(vec![var("a"), var("b")]);
    let mut at = |k: usize| {
        body.extend(match k {
            0 => vec![tryc(vec![throw(txt("second"))], "i", vec![say(var("i")), f(vec![])])],
            1 => vec![s(K::ForLoop { var: lv("i"), start: bx(num(1.0)), stop: bx(num(2.0)), stmts: vec![inc("i", var("a")), f(vec![]), say(var("i"))] })],
            2 => vec![s(K::ForeachLoop { var: lv("i"), items: bx(two()), stmts: vec![inc("i", num(1.0)), f(vec![]), say(var("i"))] })],
            3 => vec![locals(&["i"]), say(var("i")), assign("i", var("b"))],
            4 => vec![s(K::CallFn { function: fref("up"), args: vec![txt("i")], upvars: vec![lv("i")] })],
            5 => vec![say(callc(clos(&["i"], &[], vec![inc("i", num(1.0)), ret(var("i"))]), vec![var("a")]))],
            // the closures made in the turns of one loop share its one variable
            6 => vec![locals(&["g"]), assign("g", list(vec![])), s(K::ForeachLoop { var: lv("i"), items: bx(two()), stmts: vec![push("g", clos(&[], &["i"], vec![inc("i", num(1.0)), ret(var("i"))]))] }), say(callc(get(var("g"), num(1.0)), vec![])), say(callc(get(var("g"), num(2.0)), vec![])), say(callc(get(var("g"), num(1.0)), vec![]))],
            _ => vec![locals(&["g"]), assign("g", list(vec![])), s(K::ForLoop { var: lv("i"), start: bx(num(1.0)), stop: bx(num(2.0)), stmts: vec![push("g", clos(&[], &["i"], vec![inc("i", num(1.0)), ret(var("i"))]))] }), say(callc(get(var("g"), num(1.0)), vec![])), say(callc(get(var("g"), num(2.0)), vec![])), say(callc(get(var("g"), num(1.0)), vec![]))],
        });
        body.push(f(vec![])); body.push(say(var("i")));
    };
    at(choice(8)); at(choice(8));
    let mut r = project(body);
    let mut up = func("up", &["i"], vec![assign("i", num(8.0)), say(var("i"))]); up.upvars = vec![lv("i")];
    r.funcs.push(up);
    r.funcs.push(func("keep", &["i"], vec![ret(clos(&[], &["i"], vec![inc("i", num(1.0)), ret(var("i"))]))]));
    cover!();
    agree(&r, &[("a", n(any_int())), ("b", n(any_int()))]);
}
/// local names are told apart and found by their translated name, whatever the name they were written with
pub fn translated() {
    let tv = |n: &str| VariableRef { name: (str_of(n) + " raw").as_str().into(), trans_name: n.into(), location: VL::Local };
    let td = |n: &str| VariableDef { name: (str_of(n) + " raw").as_str().into(), trans_name: n.into() };
    let get = |n: &str| e(X::Variable { var: tv(n) });
    let set = |n: &str, v: Expr| s(K::Assign { var: tv(n), value: bx(v) });
    let items = || bx(list(vec![var("a"), var("b")]));
    let stmts = match choice(6) {
        0 => vec![s(K::ForLoop { var: tv("i"), start: bx(num(1.0)), stop: bx(num(2.0)), stmts: vec![say(get("i"))] }), say(get("i"))],
        1 => vec![s(K::ForeachLoop { var: tv("i"), items: items(), stmts: vec![say(get("i"))] }), say(get("i"))],
        2 => vec![s(K::DeclareLocals { vars: vec![td("i")] }), set("i", var("a")), say(get("i"))],
        3 => vec![s(K::TryCatch { code: vec![s(K::Throw { error: bx(txt("no")) })], var: tv("i"), handler: vec![say(get("i"))] })],
        4 => vec![s(K::DeclareLocals { vars: vec![td("i")] }), set("i", e(X::Closure { kind: ast::ClosureKind::Reporter, params: vec![td("p")], captures: vec![tv("i")], stmts: vec![set("i", get("p")), ret(var("i"))] })), say(callc(get("i"), vec![var("b")])), say(get("i"))],
        _ => vec![say(call("k", vec![var("b")]))],
    };
    let mut r = main_role(&["a", "b"], stmts);
    r.funcs.push(Function { name: "k raw".into(), trans_name: "k".into(), params: vec![td("p")], upvars: vec![], returns: true, stmts: vec![ret(get("p"))] });
    cover!();
    agree(&r, &[("a", n(any_int())), ("b", n(any_int()))]);
}
harnesses!(programs, brought, translated);
