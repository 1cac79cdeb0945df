//! P10 try, catch and throw
use crate::b::*; use crate::interp::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::vec; use alloc::vec::Vec;

fn x() -> Expr { var("x") }
/// ways to fail (or not), from the plainest to deep inside calls, loops and half-evaluated expressions
const FAILS: usize = 15;
fn fail(k: usize) -> Vec<Stmt> {
    match k {
        0 => vec![throw(txt("one"))],
        1 => vec![calls("bad", vec![var("a")])],
        2 => vec![say(list(vec![num(1.0), call("bad", vec![var("b")]), num(2.0)]))],
        3 => vec![repeat(num(3.0), vec![inc("x", num(1.0)), iff(less(var("a"), x()), vec![throw(txt("loop"))])])],
        4 => vec![forl("i", num(1.0), num(3.0), vec![each("j", list(vec![num(1.0), num(2.0)]), vec![calls("bad", vec![var("i")])])])],
        5 => vec![assign("x", e(X::Map { f: bx(clos(&["p"], &["a"], vec![iff(less(var("a"), var("p")), vec![throw(txt("map"))]), ret(var("p"))])), list: bx(list(vec![var("b"), num(2.0)])) }))],
        6 => vec![assign("missing", num(1.0))],
        7 => vec![say(get(list(vec![num(5.0)]), plus(var("a"), num(0.0))))],
        8 => vec![warp(vec![repeat(num(2.0), vec![calls("bad", vec![var("b")])])])],
        9 => vec![callcs(clos(&["p"], &[], vec![warp(vec![throw(txt("in"))])]), vec![num(1.0)])],
        10 => vec![calls("catches", vec![var("a")])],
        11 => vec![iff(less(var("a"), var("b")), vec![ret(list(vec![num(6.0), var("a")]))]), throw(txt("after"))],
        12 => vec![say(num(9.0))],
        13 => vec![warp(vec![iff(less(var("a"), var("b")), vec![warp(vec![throw(txt("warped"))])]), say(num(1.0))]), repeat(num(1.0), vec![])],
        _ => vec![tryc(vec![calls("bad", vec![var("a")]), throw(txt("two"))], "er", vec![throw(e(X::Variable { var: lv("er") }))])],
    }
}
fn project(body: Vec<Stmt>) -> Role {
    let mut r = role(vec![
        func("main", &["a", "b"], body),
        func("bad", &["p"], vec![repeat(num(1.0), vec![iff(less(var("p"), num(2.0)), vec![throw(txt("bad"))])]), ret(var("p"))]),
        func("catches", &["p"], vec![tryc(vec![warp(vec![calls("bad", vec![var("p")])]), iff(less(num(2.0), var("p")), vec![ret(num(1.0))])], "e2", vec![say(txt("inner")), say(var("e2"))]), iff(less(var("p"), num(1.0)), vec![throw(txt("rest"))])]),
        func("leaves", &["p"], vec![tryc(vec![repeat(num(2.0), vec![tryc(vec![tryc(vec![iff(less(var("p"), num(2.0)), vec![ret(num(1.0))])], "e1", vec![say(txt("wrong 1"))]), iff(less(num(2.0), var("p")), vec![stop_block()])], "e2", vec![say(txt("wrong 2"))])])], "e3", vec![say(txt("wrong 3"))])]),
    ], vec![entity("Stage")]);
    r.globals = vec![vi("x", AV::Number(0.0))];
    r
}
fn small_args() -> [(&'static str, V); 2] { [("a", small()), ("b", small())] }
/// says the error unless it is one whose text the machine words itself
fn handler(k: usize) -> Vec<Stmt> { if k == 6 || k == 7 { vec![say(num(42.0))] } else { vec![say(var("er"))] } }
/// a failure in a try block runs its handler once with the text thrown, and the program goes on after it
pub fn caught() {
    let (k, w) = (choice(FAILS), choice(7));
    let t = |then: Vec<Stmt>| { let mut h = handler(k); h.extend(then); tryc({ let mut c = vec![say(num(1.0))]; c.extend(fail(k)); c.push(say(num(2.0))); c }, "er", h) };
    let stmts = match w {
        0 => vec![t(vec![]), repeat(num(2.0), vec![say(num(3.0))]), ret(x())],
        1 => vec![repeat(num(2.0), vec![t(vec![])]), say(num(3.0)), ret(x())],
        2 => vec![each("z", list(vec![num(50.0), num(51.0)]), vec![t(vec![]), say(var("z"))])],
        3 => vec![warp(vec![t(vec![]), repeat(num(2.0), vec![say(num(3.0))])]), repeat(num(1.0), vec![])],
        4 => vec![t(vec![ret(num(8.0))]), ret(num(9.0))],
        5 => vec![tryc(vec![t(vec![throw(txt("again"))])], "e3", vec![say(var("e3"))]), say(num(4.0))],
        _ => vec![t(vec![]), throw(txt("late"))],
    };
    agree(&project(stmts), &small_args());
}
/// outside any try block a failure ends the program; a handler that has run or a block that was left no longer catches
pub fn uncaught() {
    let (k, w) = (choice(FAILS), choice(7));
    let quiet = || tryc(vec![say(num(1.0))], "er", vec![say(num(99.0))]);
    let used = || tryc(vec![throw(txt("u"))], "er", vec![say(var("er"))]);
    let left = || calls("catches", vec![num(3.0)]);
    let mut stmts = match w {
        0 => vec![],
        1 => vec![quiet()],
        2 => vec![used()],
        3 => vec![left()],
        4 => vec![repeat(num(2.0), vec![quiet(), used()])],
        5 => vec![say(list(vec![call("leaves", vec![var("a")]), call("leaves", vec![num(1.0)])])), tryc(vec![calls("leaves", vec![num(3.0)]), throw(txt("mine"))], "er", vec![say(var("er"))])],
        _ => vec![quiet(), tryc(vec![quiet(), used(), left()], "er", vec![say(num(98.0))])],
    };
    stmts.extend(fail(k));
    stmts.push(ret(num(5.0)));
    agree(&project(stmts), &small_args());
}
/// two nested try blocks: the inner one catches what fails inside it, the outer what fails in the inner handler or after it
pub fn nested() {
    let (k, j, i) = (choice(FAILS), choice(FAILS), choice(3));
    let h = |k: usize, name: &str, then: Vec<Stmt>| { let mut h = vec![if k == 6 || k == 7 { say(num(42.0)) } else { say(var(name)) }]; h.extend(then); h };
    let stmts = match i {
        0 => { let mut c = vec![tryc(fail(k), "e1", h(k, "e1", fail(j)))]; c.push(say(num(1.0))); vec![tryc(c, "e2", vec![say(txt("outer"))])] }
        1 => { let mut c = vec![tryc(fail(k), "e1", h(k, "e1", vec![]))]; c.extend(fail(j)); vec![tryc(c, "e2", h(j, "e2", vec![]))] }
        _ => { let mut c = fail(k); c.push(tryc(fail(j), "e1", h(j, "e1", vec![]))); vec![tryc(c, "e2", h(k, "e2", vec![]))] }
    };
    let mut stmts = stmts; stmts.push(ret(x()));
    agree(&project(stmts), &small_args());
}
/// the text of a caught error that was thrown by a throw block is the text thrown, whatever it is
pub fn text() {
    let words = ["", "x", "line\nbreak", "quote \" and \\", "é世界", "1", "a longer text that does not fit into the small inline buffer"];
    let w = words[choice(words.len())];
    let inner = choice(3);
    let th = match inner { 0 => vec![throw(txt(w))], 1 => vec![tryc(vec![throw(txt(w))], "e1", vec![throw(var("e1"))])], _ => vec![callcs(clos(&["p"], &[], vec![throw(var("p"))]), vec![txt(w)])] };
    cover!();
    agree(&project(vec![tryc(th, "er", vec![ret(var("er"))])]), &small_args());
}
/// process state that systems attach is wound back when an error is caught or a call returns
pub fn unwinding() {
    let how = choice(3);
    let fails = match how { 0 => vec![throw(txt("x"))], 1 => vec![ret(num(1.0))], _ => vec![] };
    let mut f = vec![s(K::UnknownBlock { name: "open".into(), args: vec![] })]; f.extend(fails);
    let mut r = main_role(&["a"], vec![tryc(vec![calls("f", vec![]), say(num(1.0))], "er", vec![say(num(2.0))]), ret(var("a"))]);
    r.funcs.push(func("f", &[], f));
    let sys = Sys::new();
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("a", nv(any_int()))]);
        // the request completes but the system leaves its mark on the process
        let before = run.p.state.depth;
        sys.polls.borrow_mut().push_back(Poll::Pending);
        let mut marked = false;
        for _ in 0..100 {
            match run.p.step(mc) { Ok(ProcessStep::Terminate { .. }) => break, Ok(_) => (), Err(_) => panic!() }
            if !marked && sys.log.borrow().len() == 1 { run.p.state.depth += 5; marked = true; }
            if sys.log.borrow().len() == 2 { check!(run.p.state.depth == before); }
        }
        cover!();
        check!(marked);
        check!(run.p.state.depth == before);
        check!(!run.p.is_running());
    });
}
harnesses!(caught, uncaught, nested, text, unwinding);
