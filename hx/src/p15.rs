//! P15 turns
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sched::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::project::{Input, Project, ProjectStep};

fn x(k: &'static str) -> E { E::Var(k) }
fn sayn(v: f64) -> A { A::Say(E::N(v)) }
fn pause(n: f64) -> A { A::Repeat(E::N(n), vec![]) }
/// scripts that take turns of different kinds
const BODY: usize = 10;
fn body(k: usize, id: f64) -> Vec<A> {
    match k {
        0 => vec![sayn(id)],
        1 => vec![A::Repeat(x("n"), vec![sayn(id)]), sayn(id + 1.0)],
        2 => vec![A::Forever(vec![sayn(id)])],
        3 => vec![sayn(id), A::Fork(vec![sayn(id + 2.0), pause(1.0), sayn(id + 3.0)]), sayn(id + 1.0), pause(2.0), sayn(id + 4.0)],
        4 => vec![A::Warp(vec![A::Repeat(x("n"), vec![sayn(id)]), pause(2.0)]), pause(1.0), sayn(id + 1.0)],
        5 => vec![A::Repeat(E::N(2.0), vec![A::Repeat(x("n"), vec![sayn(id)]), A::Inc("n", E::N(-1.0))])],
        6 => vec![A::Send { msg: E::T("m"), wait: false, to: None }, sayn(id), pause(1.0), sayn(id + 1.0)],
        7 => vec![pause(1.0), A::Throw],
        8 => vec![A::Sleep(E::N(0.0)), sayn(id), A::Sleep(E::N(1.0)), sayn(id + 1.0)],
        _ => vec![A::If(x("n"), E::N(2.0), vec![A::On(Tgt::Name("B"), vec![pause(1.0), sayn(id)])], vec![A::WaitLess(x("n"), E::N(1.0))]), sayn(id + 1.0)],
    }
}
/// scripts take turns in a fixed rotation: a turn lasts until the script gives way or ends, what starts anew waits at the end of the line
pub fn rotation() {
    let (i, j, k) = (choice(BODY), choice(BODY), choice(if cfg!(feature = "deep") { BODY } else { 3 }));
    let k = if cfg!(feature = "deep") { k } else { [1, 3, 6][k] };
    let sc = |prog| Sc { hat: Ht::Flag, prog };
    let p = Proj { globals: vec![("n", (any_u8() & 3) as f64)], ents: vec![
        En { name: "A", fields: vec![], scripts: vec![sc(body(i, 100.0)), sc(body(j, 200.0))] },
        En { name: "B", fields: vec![], scripts: vec![Sc { hat: Ht::Msg(Some("m")), prog: vec![sayn(1.0), pause(1.0), sayn(2.0)] }, sc(body(k, 300.0))] },
    ] };
    cover!();
    side_by_side(&p, &[Poke::Start, Poke::None, Poke::Time(if i == 8 || j == 8 { any_u16() as u64 } else { 500 })], 14);
}
/// a script waiting for an answer does not keep the others from their turns
pub fn patience() {
    let (w, n) = (choice(4), choice(4));
    let mut r = role(vec![], vec![]);
    let mut en = entity("A");
    let asks = match w { 0 => s(K::Ask { prompt: bx(txt("?")) }), 1 => s(K::CallRpc { host: None, service: "s".into(), rpc: "r".into(), args: vec![] }), 2 => s(K::Forward { distance: bx(num(1.0)) }), _ => warp(vec![s(K::Ask { prompt: bx(txt("?")) })]) };
    en.scripts = vec![script(HatKind::OnFlag, vec![asks, inc("a", num(1.0))]), script(HatKind::OnFlag, vec![forever(vec![inc("b", num(1.0))])]), script(HatKind::OnFlag, vec![forever(vec![inc("c", num(1.0))])])];
    r.entities.push(en);
    r.globals = vec![vi("a", AV::Number(any_int())), vi("b", AV::Number(0.0)), vi("c", AV::Number(0.0))];
    let a0 = match &r.globals[0].init { AV::Number(x) => *x, _ => 0.0 };
    let sys = Sys::new();
    for _ in 0..n { sys.polls.borrow_mut().push_back(Poll::Pending); }
    gc(|mc| {
        let (code, init, _, _) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => panic!("compile") };
        let mut p: Project<Cu, Sys> = Project::from_init(mc, &init, Rc::new(code), Settings::default(), sys.clone());
        p.input(mc, Input::Start);
        let g = p.get_global_context();
        let get = |k: &str| match snap(&*g.borrow().globals.lookup(k).unwrap().get()) { V::N(x) => x, _ => -1.0 };
        let mut yields = 0;
        for _ in 0..60 {
            match p.step(mc) { ProjectStep::Yield => yields += 1, ProjectStep::Idle | ProjectStep::Error { .. } => check!(false), _ => () }
            let (b, c) = (get("b"), get("c"));
            check!(b - c == 0.0 || b - c == 1.0);
            // the waiting script is polled once per round: it goes on exactly in the round after the last delay
            let done = get("a") == norm(a0 + 1.0);
            check!(!done || b >= n as f64 && yields >= 3 * n);
            check!(done || b <= n as f64 && c <= n as f64);
        }
        cover!();
        check!(get("a") == norm(a0 + 1.0));
    });
}
harnesses!(rotation, patience);
