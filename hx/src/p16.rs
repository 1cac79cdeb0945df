//! P16 what starts scripts from outside
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sched::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::vec; use alloc::vec::Vec;

fn x(k: &'static str) -> E { E::Var(k) }
fn sayn(v: f64) -> A { A::Say(E::N(v)) }
fn run(id: f64) -> Vec<A> { vec![sayn(id), A::Repeat(x("n"), vec![]), sayn(id + 0.5)] }
/// one project with a script for every kind of event
fn project() -> Proj {
    let sc = |hat, prog| Sc { hat, prog };
    let arg = |id: f64| vec![sayn(id), A::Say(x("p")), A::Say(x("q")), A::Repeat(x("n"), vec![]), A::Inc("p", x("q")), A::Say(x("p"))];
    Proj { globals: vec![("n", (any_u8() & 3) as f64), ("p", 77.0)], ents: vec![
        En { name: "Stage", fields: vec![], scripts: vec![sc(Ht::Flag, run(1.0)), sc(Ht::Key("any key"), run(2.0)), sc(Ht::Custom("ev", vec!["p", "q"]), arg(3.0))] },
        En { name: "A", fields: vec![("q", 5.0)], scripts: vec![sc(Ht::Key("a"), run(4.0)), sc(Ht::Custom("other", vec![]), run(5.0)), sc(Ht::Flag, run(6.0)), sc(Ht::Custom("ev", vec!["q"]), arg(7.0)), sc(Ht::Msg(Some("ev")), run(8.0)), sc(Ht::Clone, run(9.0))] },
    ] }
}
const POKES: usize = 13;
fn poke(k: usize, a: f64, b: f64) -> Poke {
    match k {
        0 => Poke::None,
        1 => Poke::Start,
        2 => Poke::Stop,
        3 => Poke::Key("a"),
        4 => Poke::Key("b"),
        5 => Poke::Custom("ev", vec![("p", a), ("q", b)], false, 0),
        6 => Poke::Custom("ev", vec![("q", a)], false, 1),
        7 => Poke::Custom("ev", vec![("r", a), ("p", b)], true, 2),
        8 => Poke::Custom("other", vec![("p", a)], false, 2),
        9 => Poke::Custom("EV", vec![], false, 5),
        10 => Poke::Custom("ev", vec![], false, 5),
        11 => Poke::KeyUp("a"),
        _ => Poke::Custom("other", vec![], true, 0),
    }
}
/// any sequence of events from outside, before successive turns
pub fn events() {
    let len = if cfg!(feature = "deep") { 4 } else { 3 };
    let p = project();
    let mut pokes: Vec<Poke> = (0..len).map(|_| { let k = choice(POKES); poke(k, any_int(), any_int()) }).collect();
    cover!();
    pokes.push(Poke::None);
    side_by_side(&p, &pokes, 22);
}
/// ways a script comes to its end
pub fn last(k: usize) -> Vec<A> { match k { 0 => vec![], 1 => vec![A::Stop(Mode::This)], 2 => vec![A::Throw], _ => vec![A::On(Tgt::Me, vec![A::If(E::N(0.0), E::N(1.0), vec![A::Stop(Mode::This)], vec![])])] } }
/// many events for one busy script: the queue keeps the oldest up to its limit, in order
pub fn queues() {
    let (m0, m1, m2, i) = (choice(4), choice(4), choice(4), choice(4));
    let p = Proj { globals: vec![("n", (any_u8() & 1) as f64)], ents: vec![En { name: "Stage", fields: vec![], scripts: vec![Sc { hat: Ht::Custom("ev", vec!["p"]), prog: { let mut v = vec![A::Say(x("p")), A::Repeat(x("n"), vec![]), A::Repeat(E::N(4.0), vec![])]; v.extend(last(choice(4))); v } }] }] };
    let ev = |v: f64, m: usize, k: usize| Poke::Custom("ev", vec![("p", v)], i == k, [0, 1, 2, usize::MAX][m]);
    let pokes = [ev(any_int(), m0, 0), ev(any_int(), m1, 1), ev(any_int(), m2, 2), ev(any_int(), m0, 4), ev(any_int(), m1, 3), Poke::None];
    cover!();
    side_by_side(&p, &pokes, 34);
}
/// a longer queue with any limit
pub fn limits() {
    let m = any_u8() as usize;
    let n_events = if cfg!(feature = "deep") { 9 } else { 6 };
    let p = Proj { globals: vec![], ents: vec![En { name: "Stage", fields: vec![], scripts: vec![Sc { hat: Ht::Custom("ev", vec!["p"]), prog: vec![A::Say(x("p")), A::Repeat(E::N(9.0), vec![])] }] }] };
    let last_interrupts = choice(2) == 1;
    let mut pokes: Vec<Poke> = (0..n_events).map(|k| Poke::Custom("ev", vec![("p", 100.0 + k as f64)], last_interrupts && k + 1 == n_events, m)).collect();
    pokes.push(Poke::None);
    cover!();
    side_by_side(&p, &pokes, if cfg!(feature = "deep") { 110 } else { 70 });
}
/// key hats react to their key only, letters in either case of the hat, and not while their script is running
pub fn keys() {
    let names = ["any key", "a", "A", "space", "up arrow", "down arrow", "left arrow", "right arrow", "enter", "1", "é"];
    let hat = choice(names.len());
    let keys = ["a", "A", "space", "up arrow", "down arrow", "left arrow", "right arrow", "enter", "1", "é", "u"];
    let p = Proj { globals: vec![("n", (any_u8() & 1) as f64)], ents: vec![En { name: "Stage", fields: vec![], scripts: vec![Sc { hat: Ht::Key(names[hat]), prog: run(1.0) }] }] };
    let (k, l) = (choice(keys.len()), choice(2));
    let second = if l == 0 { keys[k] } else { "a" };
    cover!();
    side_by_side(&p, &[Poke::Key(keys[k]), Poke::Key(second), Poke::KeyUp(second), Poke::Key(second), Poke::None], 14);
}
/// what names no key or no event the machine knows is an error of the project
pub fn bad_hats() {
    let k = choice(5);
    let hat = match k { 0 => HatKind::OnKey { key: "".into() }, 1 => HatKind::OnKey { key: "ab".into() }, 2 => HatKind::OnKey { key: "f12".into() }, 3 => HatKind::MouseDown, _ => HatKind::Stopped };
    let mut r = main_role(&[], vec![]);
    r.entities[0].scripts.push(script(hat, vec![say(num(1.0))]));
    cover!();
    check!(ByteCode::compile(&r).is_err());
}
/// names of events, of their arguments and of keys count character by character
pub fn names() {
    let k = choice(3);
    let sc = |hat, prog| Sc { hat, prog };
    let v = any_int();
    let scripts;
    let poke = match k {
        0 => {
            let (heard, sent) = match choice(2) { 0 => (any_text("ev", ""), any_text("ev", "")), _ => (any_text("", " 1"), any_text("", " 1")) };
            scripts = vec![sc(Ht::Custom(heard, vec!["p"]), vec![A::Say(x("p")), sayn(1.0)])];
            Poke::Custom(sent, vec![("p", v)], false, 1)
        }
        1 => {
            let (want, given) = match choice(2) { 0 => ("p", any_text("", "")), _ => ("p x", any_text("p", "x")) };
            scripts = vec![sc(Ht::Custom("go", vec!["q", want]), vec![A::Say(x(want)), A::Say(x("q"))])];
            Poke::Custom("go", vec![(given, v), ("zz", 5.0)], false, 1)
        }
        _ => {
            scripts = vec![sc(Ht::Key(any_text("", "")), vec![sayn(1.0), A::Repeat(E::N(1.0), vec![]), sayn(2.0)])];
            Poke::Key(any_text("", ""))
        }
    };
    let p = Proj { globals: vec![("n", 0.0)], ents: vec![En { name: "Stage", fields: vec![], scripts }] };
    cover!();
    side_by_side(&p, &[poke, Poke::None], 8);
}
harnesses!(events, queues, keys, bad_hats, names, limits);
