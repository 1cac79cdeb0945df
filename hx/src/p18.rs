//! P18 clones
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sched::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::rc::Rc; use alloc::vec; use alloc::vec::Vec;

fn x(k: &'static str) -> E { E::Var(k) }
fn sayn(v: f64) -> A { A::Say(E::N(v)) }
fn pause(n: f64) -> A { A::Repeat(E::N(n), vec![]) }
fn send(m: &'static str, wait: bool) -> A { A::Send { msg: E::T(m), wait, to: None } }
/// what clones do when they start
const WAKE: usize = 9;
fn wake(k: usize) -> Vec<A> {
    let mut v = vec![A::Say(E::Me), A::Say(x("f"))];
    v.extend(match k {
        0 => vec![],
        1 => vec![A::Inc("f", x("n")), A::Say(x("f")), pause(1.0), A::Say(x("f"))],
        2 => vec![A::Repeat(x("n"), vec![]), A::Delete, sayn(5.0)],
        3 => vec![A::Inc("k", E::N(1.0)), A::If(x("k"), E::N(3.0), vec![A::Inc("f", E::N(10.0)), A::NewClone(Tgt::Me), sayn(6.0)], vec![]), pause(1.0), A::Say(x("f"))],
        4 => vec![A::Fork(vec![pause(1.0), A::Inc("f", E::N(1.0)), A::Say(x("f"))]), pause(2.0), A::Delete],
        5 => vec![A::Warp(vec![A::Try(vec![A::Delete], vec![sayn(7.0)])]), sayn(8.0)],
        6 => vec![A::On(Tgt::Name("A"), vec![A::Inc("f", E::N(100.0)), A::Delete, A::Say(x("f"))]), A::Say(x("f"))],
        7 => vec![A::Stop(Mode::MyOthers), pause(1.0), send("m", true), sayn(9.0)],
        _ => vec![A::Throw],
    });
    v
}
/// what the scripts that make clones do
const MAKE: usize = 9;
fn make(k: usize) -> Vec<A> {
    match k {
        0 => vec![A::NewClone(Tgt::Name("A")), sayn(1.0), pause(2.0), send("m", true), sayn(2.0)],
        1 => vec![A::Clone("c", Tgt::Name("A")), A::Say(x("c")), A::On(Tgt::Var("c"), vec![A::Inc("f", E::N(2.0)), A::Say(x("f"))]), A::On(Tgt::Name("A"), vec![A::Say(x("f"))])],
        2 => vec![A::Repeat(E::N(2.0), vec![A::NewClone(Tgt::Name("A"))]), send("m", false), pause(2.0)],
        3 => vec![A::Clone("c", Tgt::Name("A")), A::On(Tgt::Var("c"), vec![A::Inc("f", E::N(3.0)), A::Clone("d", Tgt::Me)]), A::On(Tgt::Var("d"), vec![A::Inc("f", E::N(4.0)), A::Say(x("f"))]), A::On(Tgt::Var("c"), vec![A::Say(x("f"))]), pause(1.0), send("m", true)],
        4 => vec![A::Clone("c", Tgt::Name("A")), pause(1.0), A::On(Tgt::Var("c"), vec![A::Delete, A::Say(x("f"))]), sayn(3.0), send("m", true), sayn(4.0)],
        5 => vec![A::Delete, sayn(1.0), A::On(Tgt::Name("A"), vec![A::Delete]), A::NewClone(Tgt::Me), send("m", true)],
        6 => vec![A::Warp(vec![A::NewClone(Tgt::Name("A")), A::NewClone(Tgt::Name("A"))]), A::Send { msg: E::T("m"), wait: true, to: Some(vec![Tgt::Name("A")]) }, sayn(2.0)],
        7 => vec![A::Clone("c", Tgt::Name("A")), A::Send { msg: E::T("m"), wait: true, to: Some(vec![Tgt::Var("c"), Tgt::Name("A")]) }, A::Send { msg: E::T("m"), wait: true, to: Some(vec![Tgt::Var("c")]) }, sayn(2.0)],
        _ => vec![A::Try(vec![A::Set("c", E::N(1.0)), A::NewClone(Tgt::Var("c"))], vec![sayn(1.0)]), A::Clone("c", Tgt::Name("A")), A::On(Tgt::Var("c"), vec![A::Fork(vec![pause(1.0), A::Say(x("f")), A::Delete, sayn(2.0)]), pause(3.0), sayn(3.0)])],
    }
}
fn project(m: usize, w: usize, o: usize) -> Proj {
    let sc = |hat, prog| Sc { hat, prog };
    let mut p = Proj { globals: vec![("n", (any_u8() & 3) as f64), ("k", 0.0), ("c", 0.0), ("d", 0.0)], ents: vec![
        En { name: "Stage", fields: vec![("f", -1.0)], scripts: vec![sc(Ht::Flag, make(m))] },
        En { name: "A", fields: vec![("f", any_int())], scripts: vec![sc(Ht::Msg(Some("m")), vec![A::Say(E::Me), A::Inc("f", E::N(1.0)), pause(1.0), A::Say(x("f"))]), sc(Ht::Clone, wake(w)), sc(Ht::Clone, vec![pause(1.0), A::Say(x("f"))]), sc(Ht::Key("a"), vec![A::Say(x("f")), pause(2.0), sayn(4.0)])] },
    ] };
    match o {
        0 | 1 => (),
        2 => p.ents[1].scripts.push(sc(Ht::Flag, vec![A::Inc("f", E::N(1000.0)), pause(1.0), A::NewClone(Tgt::Me), A::Say(x("f"))])),
        3 => p.ents[0].scripts.push(sc(Ht::Clone, vec![A::Say(E::Me), A::Say(x("f")), pause(2.0), A::Delete])),
        _ => p.ents[1].scripts.push(sc(Ht::Custom("ev", vec!["f"]), vec![A::Say(x("f")), A::Inc("f", E::N(1.0)), pause(1.0), A::Say(x("f")), A::Delete])),
    }
    p
}
/// clones have their own copies of fields and scripts, start their clone scripts, take part in everything their original does, and are gone when deleted
pub fn life() {
    let (m, w, o) = (choice(MAKE), choice(WAKE), choice(5));
    let p = project(m, w, o);
    cover!();
    let key = || Poke::Key("a");
    let ev = |v: f64| Poke::Custom("ev", vec![("f", v)], false, 1);
    let mut pokes = match o {
        1 => vec![Poke::Start, Poke::None, Poke::Stop, key(), Poke::Start, Poke::None],
        4 => vec![Poke::Start, Poke::None, ev(any_int()), ev(any_int()), Poke::None, ev(any_int())],
        _ => vec![Poke::Start, Poke::None, key(), Poke::None, Poke::None, if w == 2 { key() } else { Poke::None }, if m == 4 { Poke::Start } else { Poke::None }],
    };
    if cfg!(feature = "deep") { pokes.extend([Poke::None, [Poke::Start, key(), Poke::Stop, ev(7.0)][choice(4)].clone(), [Poke::Start, key(), ev(8.0)][choice(3)].clone()]); }
    side_by_side(&p, &pokes, 20);
}
/// clones of clones come from the same original, and their state knows the clone they were made from
pub fn family() {
    let depth = 1 + choice(3);
    let (v, d) = (any_int(), any_int());
    let mut body = vec![assign("c", ent("A"))];
    for _ in 0..depth { body.push(assign("c", e(X::Clone { target: bvar("c") }))); }
    body.push(callcs_on(var("c"), clos(&[], &["d"], vec![inc("f", var("d"))])));
    body.push(ret(list(vec![e(X::Identical { left: bvar("c"), right: bx(ent("A")) }), callc_on(ent("A"), clos(&[], &[], vec![ret(var("f"))]), vec![]), callc_on(var("c"), clos(&[], &[], vec![ret(var("f"))]), vec![])])));
    fn callcs_on(en: Expr, f: Expr) -> Stmt { s(K::CallClosure { new_entity: Some(bx(en)), closure: bx(f), args: vec![] }) }
    let mut a = entity("A");
    a.fields = vec![vi("f", AV::Number(v))];
    let mut r = role(vec![func("main", &["d", "c"], body)], vec![entity("Stage"), a]);
    let sys = Sys::new();
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("d", nv(d)), ("c", nv(0.0))]);
        let mut made = vec![];
        let mut out = None;
        for _ in 0..200 {
            match run.p.step(mc) {
                Ok(ProcessStep::CreatedClone { clone }) => made.push(clone),
                Ok(ProcessStep::Terminate { result }) => { out = Some(snap(&result)); break }
                Ok(_) => (),
                Err(_) => { check!(false); return }
            }
        }
        cover!();
        check!(made.len() == depth);
        let root = *run.g.borrow().entities.get("A").unwrap();
        for c in &made {
            check!(matches!(c.borrow().original, Some(o) if Gc::ptr_eq(o, root)));
            check!(c.borrow().state.kind == 2 && c.borrow().state.parent.as_str() == "A" && c.borrow().name.as_str() == "A");
        }
        check!(root.borrow().original.is_none());
        match out { Some(out) => check!(veq(&out, &l(vec![V::B(false), n(v), n(norm(v + d))]))), None => check!(false) }
    });
}
harnesses!(life, family);
