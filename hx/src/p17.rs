//! P17 stopping scripts
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sched::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::vec; use alloc::vec::Vec;

fn x(k: &'static str) -> E { E::Var(k) }
fn sayn(v: f64) -> A { A::Say(E::N(v)) }
fn pause(n: f64) -> A { A::Repeat(E::N(n), vec![]) }
fn send(m: &'static str, wait: bool) -> A { A::Send { msg: E::T(m), wait, to: None } }
const MODES: [Mode; 4] = [Mode::This, Mode::All, Mode::Others, Mode::MyOthers];
/// where a script stops something
const PLACES: usize = 10;
fn stopper(k: usize, m: Mode) -> Vec<A> {
    let stop = || A::Stop(m);
    let mut v = vec![sayn(1.0)];
    v.extend(match k {
        0 => vec![stop()],
        1 => vec![A::Repeat(x("n"), vec![sayn(2.0)]), stop()],
        2 => vec![A::Warp(vec![A::Repeat(E::N(2.0), vec![A::If(x("n"), E::N(2.0), vec![stop()], vec![])])])],
        3 => vec![A::Try(vec![pause(1.0), stop(), A::Throw], vec![sayn(3.0)])],
        4 => vec![A::On(Tgt::Name("B"), vec![pause(1.0), stop(), sayn(4.0)])],
        5 => vec![A::Fork(vec![sayn(5.0), stop(), sayn(6.0)]), pause(3.0)],
        6 => vec![A::Forever(vec![A::If(E::N(2.0), x("n"), vec![stop()], vec![]), A::Inc("n", E::N(1.0))])],
        7 => vec![send("m", true), stop()],
        8 => vec![send("m", false), stop(), pause(1.0)],
        _ => vec![A::NewClone(Tgt::Name("B")), pause(1.0), stop(), send("m", true)],
    });
    v.extend([sayn(7.0), pause(1.0), sayn(8.0)]);
    v
}
/// stopping ends exactly the scripts it names, at once, whatever they are doing
pub fn modes() {
    let (m, k, o) = (MODES[choice(4)], choice(PLACES), choice(4));
    let sc = |hat, prog| Sc { hat, prog };
    let busy = |id: f64| vec![A::Forever(vec![sayn(id)])];
    let other = match o {
        0 => vec![pause(2.0), sayn(20.0)],
        1 => vec![send("m", true), sayn(21.0)],
        2 => vec![A::Sleep(E::N(1.0)), sayn(22.0)],
        _ => vec![A::On(Tgt::Name("B"), vec![A::Forever(vec![sayn(23.0)])])],
    };
    let mut ents = vec![
        En { name: "A", fields: vec![], scripts: vec![sc(Ht::Flag, stopper(k, m)), sc(Ht::Flag, other)] },
        En { name: "B", fields: vec![], scripts: vec![sc(Ht::Flag, busy(10.0)), sc(Ht::Msg(Some("m")), vec![pause(2.0), sayn(11.0)]), sc(Ht::Clone, vec![sayn(12.0), pause(2.0), sayn(13.0)])] },
    ];
    if k == 5 { ents[1].scripts.insert(0, sc(Ht::Flag, vec![A::On(Tgt::Name("A"), vec![pause(3.0), sayn(14.0)])])); }
    cover!();
    side_by_side(&Proj { globals: vec![("n", (any_u8() & 3) as f64)], ents }, &[Poke::Start], 16);
}
/// events that wait for a script that stops are taken up by it afterwards; stopping everything drops them
pub fn waiting_events() {
    let (m, k) = (MODES[choice(4)], choice(5));
    let stop = || A::Stop(m);
    let prog = match k {
        0 => vec![A::Say(x("p")), A::Repeat(x("n"), vec![]), stop(), sayn(1.0)],
        1 => vec![A::Say(x("p")), A::Repeat(E::N(2.0), vec![]), A::If(x("p"), E::N(2.0), vec![stop()], vec![]), sayn(1.0)],
        2 => vec![A::Say(x("p")), A::Warp(vec![A::If(x("p"), E::N(3.0), vec![stop()], vec![])]), A::Repeat(x("n"), vec![])],
        3 => vec![A::Say(x("p")), A::Fork(vec![A::Repeat(x("n"), vec![]), stop(), sayn(2.0)]), A::Repeat(E::N(2.0), vec![])],
        _ => vec![A::Say(x("p")), A::Repeat(E::N(1.0), vec![]), A::If(x("p"), E::N(2.0), vec![A::Throw], vec![]), stop()],
    };
    let second = matches!(m, Mode::Others | Mode::MyOthers) || choice(2) == 1;
    let mut scripts = vec![Sc { hat: Ht::Custom("ev", vec!["p"]), prog }];
    if second { scripts.push(Sc { hat: Ht::Custom("ev", vec!["p"]), prog: vec![A::Say(x("p")), A::Repeat(E::N(3.0), vec![]), sayn(9.0)] }); }
    let p = Proj { globals: vec![("n", (any_u8() & 3) as f64)], ents: vec![En { name: "A", fields: vec![], scripts }] };
    let small = || (any_u8() & 3) as f64;
    let ev = |v: f64| Poke::Custom("ev", vec![("p", v)], false, 3);
    let pokes = [ev(small()), ev(small()), ev(small()), Poke::None, Poke::None, if choice(2) == 1 { ev(5.0) } else { Poke::Stop }, Poke::None];
    cover!();
    side_by_side(&p, &pokes, 24);
}
/// the stop button ends everything and nothing else: what comes afterwards starts anew
pub fn button() {
    let at = choice(4);
    let k = choice(PLACES);
    let sc = |hat, prog| Sc { hat, prog };
    let p = Proj { globals: vec![("n", (any_u8() & 3) as f64)], ents: vec![
        En { name: "A", fields: vec![], scripts: vec![sc(Ht::Flag, stopper(k, Mode::This)), sc(Ht::Custom("ev", vec![]), vec![sayn(1.0), pause(2.0), sayn(2.0)])] },
        En { name: "B", fields: vec![], scripts: vec![sc(Ht::Msg(Some("m")), vec![pause(2.0), sayn(11.0)]), sc(Ht::Clone, vec![sayn(12.0), pause(2.0), sayn(13.0)])] },
    ] };
    let mut pokes = vec![Poke::Start, Poke::Custom("ev", vec![], false, 2)];
    for _ in 0..at { pokes.push(Poke::Custom("ev", vec![], false, 2)); }
    pokes.push(Poke::Stop);
    pokes.push(if choice(2) == 1 { Poke::Start } else { Poke::Custom("ev", vec![], false, 2) });
    cover!();
    side_by_side(&p, &pokes, 18);
}
/// a process that has ended in any way is idle from then on, whatever it has left to do
pub fn over() {
    let k = choice(7);
    let v = any_int();
    let end: Vec<Stmt> = match k {
        0 => vec![], 1 => vec![ret(var("a"))], 2 => vec![throw(txt("t"))], 3 => vec![stop_script()],
        4 => vec![calls("g", vec![])], 5 => vec![warp(vec![ret(e(X::ListGet { list: bvar("a"), index: bx(num(1.0)) }))])],
        _ => vec![iff(less(var("a"), num(0.0)), vec![stop_script()])],
    };
    let mut body = vec![say(num(1.0))];
    body.extend(end);
    if k != 0 { body.push(say(num(2.0))) }
    let mut r = main_role(&["a"], body);
    r.funcs.push(func("g", &[], vec![tryc(vec![s(K::Stop { mode: ast::StopMode::ThisScript })], "er", vec![]), say(num(3.0))]));
    let sys = Sys::new();
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("a", nv(v))]);
        let (mut ends, mut idle) = (0, 0);
        for _ in 0..60 {
            let before = run.p.is_running();
            match run.p.step(mc) {
                Ok(ProcessStep::Idle) => { check!(!before); idle += 1 }
                Ok(ProcessStep::Terminate { .. }) | Ok(ProcessStep::Abort { .. }) | Err(_) => { check!(before && !run.p.is_running()); ends += 1 }
                Ok(_) => check!(before && run.p.is_running()),
            }
        }
        cover!();
        check!(ends == 1 && idle > 10);
    });
    let goes_on = k == 6 && !(v < 0.0);
    check!(sys.log.borrow().len() == if goes_on { 2 } else { 1 });
}
harnesses!(modes, waiting_events, button, over);
