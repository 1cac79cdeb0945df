//! P09 calls of functions and closures
use crate::b::*; use crate::interp::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::vec; use alloc::vec::Vec;

fn x() -> Expr { var("x") }
/// a value computed through a call, in several ways
const CALLS: usize = 12;
fn through(k: usize, v: Expr) -> Expr {
    match k {
        0 => call("early", vec![v]),
        1 => call("sum", vec![v]),
        2 => call("even", vec![v]),
        3 => callc(clos(&["p"], &["a"], vec![repeat(num(2.0), vec![iff(less(var("p"), var("a")), vec![ret(list(vec![var("p"), num(1.0)]))])])]), vec![v]),
        4 => callc(call("adder", vec![var("a")]), vec![v]),
        5 => call("twice", vec![call("adder", vec![var("b")]), v]),
        6 => call("none", vec![v]),
        7 => callc(var("a"), vec![v]),
        8 => callc(clos(&["p", "q"], &[], vec![ret(var("p"))]), vec![v]),
        9 => callc(clos(&[], &[], vec![ret(num(4.0))]), vec![]),
        10 => call("own", vec![v]),
        _ => callc_on(ent("Other"), clos(&["p"], &[], vec![ret(list(vec![var("w"), call("own", vec![var("p")]), e(X::This)]))]), vec![v]),
    }
}
fn project(body: Vec<Stmt>) -> Role {
    let p = || var("p");
    let mut st = entity("Stage"); let mut other = entity("Other");
    st.fields = vec![vi("w", AV::Number(5.0))]; other.fields = vec![vi("w", AV::Number(6.0))];
    let mut r = role(vec![
        func("main", &["a", "b"], body),
        // returns from inside loops, with loop counters and operands waiting
        func("early", &["p"], vec![forl("i", num(1.0), num(3.0), vec![repeat(num(2.0), vec![each("j", list(vec![num(7.0), p()]), vec![iff(less(p(), var("i")), vec![ret(list(vec![var("i"), var("j")]))])])])])]),
        func("sum", &["p"], vec![iff(less(p(), num(1.0)), vec![ret(num(1.0))]), ret(plus(call("sum", vec![minus(p(), num(1.0))]), p()))]),
        func("even", &["p"], vec![ifelse(less(p(), num(1.0)), vec![ret(boolean(true))], vec![ret(call("odd", vec![minus(p(), num(1.0))]))])]),
        func("odd", &["p"], vec![ifelse(less(p(), num(1.0)), vec![ret(boolean(false))], vec![ret(call("even", vec![minus(p(), num(1.0))]))])]),
        func("adder", &["k"], vec![ret(clos(&["p"], &["k"], vec![inc("k", num(1.0)), ret(plus(p(), var("k")))]))]),
        func("twice", &["f", "p"], vec![ret(callc(var("f"), vec![callc(var("f"), vec![p()])]))]),
        func("none", &["p"], vec![assign("x", p()), iff(less(p(), num(2.0)), vec![stop_block()]), say(p())]),
        func("own", &["p"], vec![say(num(33.0)), ret(p())]),
    ], vec![st, other]);
    r.globals = vec![vi("x", AV::Number(1.0)), vi("f", AV::Number(0.0))];
    r
}
fn small_args() -> [(&'static str, V); 2] { [("a", small()), ("b", small())] }
/// results of calls among waiting operands: whatever a call does inside, the caller's values are as they were
pub fn operands() {
    let (k, w) = (choice(CALLS), choice(9));
    let v = through(k, var("b"));
    let stmts = match w {
        0 => vec![ret(v)],
        1 => vec![ret(list(vec![num(70.0), v, num(71.0)]))],
        2 => vec![ret(list(vec![num(70.0), list(vec![call("early", vec![num(2.0)]), v]), through(choice(CALLS), var("a"))]))],
        3 => vec![repeat(num(2.0), vec![assign("x", v)]), ret(list(vec![x(), var("b")]))],
        4 => vec![forl("i", num(1.0), num(2.0), vec![each("j", list(vec![num(5.0), num(6.0)]), vec![assign("x", list(vec![var("i"), v, var("j")])), say(x())])])],
        5 => vec![ret(call("early", vec![call("sum", vec![plus(var("a"), num(0.0))])])), say(v)],
        6 => vec![say(v), ret(num(2.0))],
        7 => vec![ret(through(choice(CALLS), v))],
        _ => vec![tryc(vec![ret(list(vec![num(1.0), v]))], "er", vec![ret(list(vec![num(2.0), var("a")]))])],
    };
    agree(&project(stmts), &small_args());
}
/// calls as statements leave nothing behind
pub fn statements() {
    let (k, w) = (choice(4), choice(4));
    let st = match k { 0 => calls("none", vec![var("b")]), 1 => calls("early", vec![var("b")]), 2 => callcs(call("adder", vec![var("a")]), vec![var("b")]), _ => callcs(clos(&["p"], &[], vec![iff(less(var("p"), num(2.0)), vec![stop_script()]), say(var("p"))]), vec![var("b")]) };
    let stmts = match w {
        0 => vec![st, ret(x())],
        1 => vec![repeat(var("a"), vec![st, inc("x", num(1.0))]), ret(x())],
        2 => vec![forl("i", var("a"), num(2.0), vec![st, say(var("i"))])],
        _ => vec![tryc(vec![st, say(num(3.0))], "er", vec![say(num(4.0))]), ret(num(5.0))],
    };
    agree(&project(stmts), &small_args());
}
/// a closure is called with as many values as it has parameters and on an entity, anything else is an error and runs nothing
pub fn arity() {
    let (np, na) = (choice(4), choice(4));
    let f = clos(&["p", "q", "r"][..np], &[], { let mut b = vec![say(num(9.0))]; b.push(ret(list((0..np).map(|i| var(["p", "q", "r"][i])).collect()))); b });
    let args = || (0..na).map(|i| [var("a"), var("b"), num(30.0)][i].clone()).collect::<Vec<_>>();
    let three = || bx(list(vec![var("a"), var("b"), num(3.0)]));
    let yes = |p: &[&str]| clos(p, &[], vec![say(num(9.0)), ret(boolean(true))]);
    let pn = &["p", "q", "r"][..np];
    let x = match choice(11) {
        0 => callc(f, args()),
        1 => callc_on(ent("Other"), f, args()),
        2 => callc(var("a"), args()),
        3 => callc_on(var("a"), f, args()),
        4 => callc_on(txt("Other"), f, args()),
        5 => callc_on(list(vec![ent("Other")]), f, args()),
        6 => e(X::Map { f: bx(f), list: three() }),
        7 => e(X::Keep { f: bx(yes(pn)), list: three() }),
        8 => e(X::FindFirst { f: bx(yes(pn)), list: three() }),
        9 => e(X::Combine { f: bx(f), list: three() }),
        _ => e(X::Map { f: bvar("b"), list: three() }),
    };
    let as_stmt = choice(2) == 1;
    let st = match (&x.kind, as_stmt) { (X::CallClosure { new_entity, closure, args }, true) => s(K::CallClosure { new_entity: new_entity.clone(), closure: closure.clone(), args: args.clone() }), _ => assign("x", list(vec![num(1.0), x, num(2.0)])) };
    cover!();
    agree(&project(vec![tryc(vec![st, say(var("x"))], "er", vec![say(num(-1.0))]), ret(num(5.0))]), &small_args());
}
/// a call that is left from inside of try blocks leaves none of its handlers behind, wherever it was called from
pub fn handlers() {
    let tr = |b: Vec<Stmt>, k: f64| tryc(b, "er", vec![say(num(k))]);
    let out = || iff(less(var("p"), num(2.0)), vec![ret(var("p"))]);
    let body = match choice(5) {
        0 => vec![tr(vec![out()], 101.0)],
        1 => vec![tr(vec![tr(vec![out()], 101.0)], 102.0)],
        2 => vec![tr(vec![tr(vec![tr(vec![out()], 101.0)], 102.0), out()], 103.0)],
        3 => vec![tr(vec![repeat(num(2.0), vec![tr(vec![warp(vec![tr(vec![out()], 101.0)])], 102.0)])], 103.0)],
        _ => vec![tr(vec![throw(txt("x"))], 104.0), tr(vec![each("z", list(vec![num(1.0), num(2.0)]), vec![tr(vec![throw(txt("y"))], 105.0), tr(vec![tr(vec![iff(less(var("p"), num(2.0)), vec![stop_block()])], 101.0)], 102.0)])], 103.0)],
    };
    let clo = choice(2) == 1;
    let lv_ = || if clo { callc(clos(&["p"], &[], vec![say(call("lv", vec![var("p")])), ret(num(2.0))]), vec![var("a")]) } else { call("lv", vec![var("a")]) };
    let fails = || iff(less(var("b"), num(2.0)), vec![throw(txt("late"))]);
    let stmts = match choice(5) {
        0 => vec![say(lv_()), fails(), ret(num(1.0))],
        1 => vec![tr(vec![say(lv_()), fails()], 201.0), fails(), ret(num(1.0))],
        2 => vec![repeat(num(2.0), vec![tr(vec![say(list(vec![lv_(), lv_()])), fails(), say(num(3.0))], 201.0)]), ret(num(1.0))],
        3 => vec![tr(vec![say(num(0.0))], 201.0), say(lv_()), fails(), ret(num(1.0))],
        _ => vec![tr(vec![tr(vec![say(lv_()), fails()], 201.0), throw(txt("more"))], 202.0), say(lv_()), fails()],
    };
    let mut r = project(stmts);
    r.funcs.push(func("lv", &["p"], { let mut b = body; b.push(say(num(7.0))); b }));
    cover!();
    agree(&r, &small_args());
}
/// a project where recursion meets the limit on the depth of calls
fn deep_project(kind: usize) -> Role {
    let down = |f: Expr| f;
    let mut r = project(match kind {
        0 => vec![ret(call("down", vec![var("a")]))],
        1 => vec![assign("f", clos(&["p"], &[], vec![inc("x", num(1.0)), iff(less(var("p"), num(1.0)), vec![ret(num(0.0))]), ret(callc(var("f"), vec![minus(var("p"), num(1.0))]))])), ret(callc(var("f"), vec![var("a")]))],
        2 => vec![tryc(vec![ret(call("down", vec![var("a")]))], "er", vec![ret(list(vec![num(-7.0), call("own", vec![num(1.0)])]))])],
        3 => vec![ret(call("mixed", vec![var("a")]))],
        4 => vec![repeat(num(2.0), vec![tryc(vec![assign("x", call("mixed", vec![var("a")]))], "er", vec![inc("x", num(100.0))])]), ret(x())],
        _ => vec![ret(e(X::Map { f: bx(clos(&["p"], &[], vec![ret(call("down", vec![var("p")]))])), list: bx(list(vec![var("a"), num(0.0), var("a")])) }))],
    });
    r.funcs.push(func("down", &["p"], vec![inc("x", num(1.0)), iff(less(var("p"), num(1.0)), vec![ret(num(0.0))]), ret(plus(num(1.0), call("down", vec![minus(var("p"), num(1.0))])))]));
    r.funcs.push(func("mixed", &["p"], vec![iff(less(var("p"), num(1.0)), vec![ret(num(0.0))]), ret(callc(clos(&["q"], &["p"], vec![ret(plus(call("mixed", vec![minus(var("p"), var("q"))]), num(1.0)))]), vec![num(1.0)]))]));
    r
}
/// the depth of calls is limited, of every kind of call alike; within the limit nothing fails, and a failure can be caught
pub fn depth() {
    let kind = choice(6);
    let limit = 1 + choice(6);
    let a = any_u8(); assume(a < 8);
    agree_to(&deep_project(kind), &[("a", n(a as f64)), ("b", n(0.0))], limit);
}
/// the depth in use never exceeds the limit
pub fn depth_bound() {
    let kind = choice(6);
    let limit = 1 + choice(5);
    let r = deep_project(kind);
    let sys = Sys::new();
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings { max_call_depth: limit, ..Settings::default() }, vec![("a", nv(6.0)), ("b", nv(0.0))]);
        let mut over = false;
        for _ in 0..600 {
            match run.p.step(mc) { Ok(ProcessStep::Normal | ProcessStep::Yield) => (), _ => break }
            over |= run.p.get_call_stack().len() > limit;
        }
        cover!();
        check!(!over);
        check!(!run.p.is_running());
    });
}
/// an entity's own function goes before a project-wide one of the same name, also from closures made there
pub fn own() {
    let mut r = project(vec![]);
    let k = choice(4);
    let b = || vec![call("own", vec![var("a")]), call("both", vec![var("a")])];
    let local = vec![func("own", &["p"], vec![ret(list(vec![num(77.0), var("p")]))]), func("run", &["a"], match k {
        0 => vec![ret(list(b()))],
        1 => vec![ret(callc_on(ent("Stage"), clos(&["a"], &[], vec![ret(list(b()))]), vec![var("a")]))],
        2 => vec![ret(e(X::Map { f: bx(clos(&["a"], &[], vec![ret(list(b()))])), list: bx(list(vec![var("a")])) }))],
        _ => vec![ret(clos(&["a"], &[], vec![ret(list(b()))]))],
    })];
    r.funcs.push(func("both", &["p"], vec![ret(call("own", vec![var("p")]))]));
    r.entities[1].funcs = local;
    let a = any_int();
    // the function of the second entity is started directly
    let sys = Sys::new();
    gc(|mc| {
        let (code, init, _, info) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => panic!("compile") };
        let pos = info.entities[1].1.funcs[1].1;
        let glob = GlobalContext::from_init(mc, &init, Rc::new(code), Settings::default(), sys.clone());
        let entity = *glob.entities.get("Other").unwrap();
        let g = Gc::new(mc, RefLock::new(glob));
        let mut l = SymbolTable::default();
        l.define_or_redefine("a", Shared::Unique(nv(a)));
        let p = Process::new(ProcContext { global_context: g, entity, locals: l, state: PSt::new(), start_pos: pos, barrier: None, reply_key: None, local_message: None });
        let mut run = Run { p, g, yields: 0, steps: 0 };
        let End::Ok(v) = run.to_end(mc, 300) else { check!(false); return };
        cover!();
        // `own` is found in the entity; within the project-wide `both`, the project-wide one is
        let mine = ln(&[77.0, a]);
        let want = crate::b::l(vec![mine, n(a)]);
        match k {
            0 | 1 => check!(veq(&snap(&v), &want)),
            2 => check!(veq(&snap(&v), &crate::b::l(vec![want]))),
            _ => check!(matches!(v, Value::Closure(_))),
        }
    });
}
use alloc::rc::Rc;
harnesses!(operands, statements, arity, handlers, depth, depth_bound, own);
