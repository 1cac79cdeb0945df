//! P11 warp and yielding
use crate::b::*; use crate::interp::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::vec; use alloc::vec::Vec;

fn x() -> Expr { var("x") }
fn id() -> Expr { clos(&["p"], &[], vec![ret(var("p"))]) }
/// things that run for several iterations
const BUSY: usize = 13;
fn busy(k: usize) -> Vec<Stmt> {
    let l = || bx(list(vec![var("a"), num(2.0), num(3.0)]));
    let keep = || bx(clos(&["p"], &["a"], vec![ret(less(var("a"), var("p")))]));
    match k {
        0 => vec![repeat(var("a"), vec![inc("x", num(1.0))])],
        1 => vec![forl("i", var("a"), var("b"), vec![inc("x", num(1.0))])],
        2 => vec![each("i", list(vec![num(1.0), num(2.0)]), vec![say(var("i"))])],
        3 => vec![until(less(num(2.0), x()), vec![inc("x", num(1.0))])],
        4 => vec![forever(vec![inc("x", num(1.0)), iff(less(var("a"), x()), vec![ret(x())])])],
        5 => vec![s(K::WaitUntil { condition: bx(call("tick", vec![])) })],
        6 => vec![say(e(X::Map { f: bx(id()), list: l() }))],
        7 => vec![say(e(X::Keep { f: keep(), list: l() }))],
        8 => vec![say(e(X::FindFirst { f: keep(), list: l() }))],
        9 => vec![say(e(X::Combine { f: bx(clos(&["p", "q"], &[], vec![ret(plus(var("p"), var("q")))])), list: l() }))],
        10 => vec![calls("early", vec![var("a")])],
        11 => vec![calls("warped", vec![var("a")])],
        _ => vec![tryc(vec![calls("fails", vec![var("a")])], "er", vec![say(num(7.0))])],
    }
}
fn project(body: Vec<Stmt>) -> Role {
    let mut r = role(vec![
        func("main", &["a", "b"], body),
        func("tick", &[], vec![inc("x", num(1.0)), ret(less(num(2.0), x()))]),
        func("early", &["p"], vec![warp(vec![repeat(num(3.0), vec![iff(less(var("p"), num(2.0)), vec![ret(num(1.0))])])]), repeat(num(1.0), vec![])]),
        func("warped", &["p"], vec![warp(vec![repeat(num(2.0), vec![warp(vec![repeat(var("p"), vec![])])]), repeat(num(2.0), vec![])])]),
        func("fails", &["p"], vec![warp(vec![repeat(num(2.0), vec![]), iff(less(var("p"), num(2.0)), vec![throw(txt("x"))])]), repeat(num(1.0), vec![])]),
    ], vec![entity("Stage")]);
    r.globals = vec![vi("x", AV::Number(0.0))];
    r
}
/// loops and list blocks give way once per iteration, except inside warp, however warp is entered and left
pub fn giving_way() {
    let (k, w) = (choice(BUSY), choice(10));
    let b = || busy(k);
    let with = |mut v: Vec<Stmt>, w: Vec<Stmt>| { v.extend(w); v };
    let stmts = match w {
        0 => b(),
        1 => vec![warp(b())],
        2 => with(vec![warp(b())], b()),
        3 => vec![warp(with(vec![warp(b())], b())), say(num(1.0))],
        4 => with(vec![repeat(num(2.0), vec![warp(b())])], b()),
        5 => with(vec![calls("early", vec![var("b")]), calls("warped", vec![var("a")])], b()),
        6 => with(vec![tryc(vec![warp(with(b(), vec![throw(txt("e"))]))], "er", b())], vec![repeat(num(1.0), vec![])]),
        7 => with(vec![warp(vec![tryc(with(b(), vec![throw(txt("e"))]), "er", b())])], b()),
        8 => with(vec![callcs(clos(&[], &["a", "b"], vec![warp(with(b(), vec![ret(num(0.0))]))]), vec![])], b()),
        _ => vec![warp(vec![callcs(clos(&[], &["a", "b"], b()), vec![]), repeat(num(2.0), vec![])]), repeat(num(2.0), vec![])],
    };
    agree(&project(stmts), &[("a", small()), ("b", small())]);
}
/// every pass of a loop that runs forever gives way, so other scripts always get their turn; inside warp none does
pub fn endless() {
    let warped = choice(2) == 1;
    let body = match choice(4) { 0 => vec![], 1 => vec![inc("x", num(1.0))], 2 => vec![calls("early", vec![var("a")])], _ => vec![iff(less(x(), var("a")), vec![say(x())]), tryc(vec![throw(txt("e"))], "er", vec![])] };
    let st = match choice(3) { 0 => forever(body), 1 => until(boolean(false), body), _ => forever(vec![forl("i", num(1.0), num(0.0), body)]) };
    let r = project(vec![if warped { warp(vec![st]) } else { st }]);
    let sys = Sys::new();
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("a", nv(any_int())), ("b", nv(0.0))]);
        let (mut since, mut most, mut yields) = (0, 0, 0);
        for _ in 0..300 {
            since += 1;
            match run.p.step(mc) { Ok(ProcessStep::Normal) => (), Ok(ProcessStep::Yield) => { yields += 1; since = 0; } _ => panic!() }
            if since > most { most = since; }
        }
        cover!();
        if warped { check!(yields == 0); } else { check!(yields >= 4); check!(most <= 75); }
    });
}
harnesses!(giving_way, endless);
