//! P14 broadcast, and broadcast and wait
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sched::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::vec; use alloc::vec::Vec;

fn x(k: &'static str) -> E { E::Var(k) }
fn sayn(v: f64) -> A { A::Say(E::N(v)) }
fn pause(n: f64) -> A { A::Repeat(E::N(n), vec![]) }
fn send(m: &'static str, wait: bool) -> A { A::Send { msg: E::T(m), wait, to: None } }
fn to(m: &'static str, wait: bool, t: Vec<Tgt>) -> A { A::Send { msg: E::T(m), wait, to: Some(t) } }
/// what a receiver does
const RECV: usize = 11;
fn recv(k: usize, id: f64) -> Vec<A> {
    let mut v = vec![A::Say(E::Msg)];
    v.extend(match k {
        0 => vec![],
        1 => vec![A::Repeat(x("n"), vec![sayn(id)])],
        2 => vec![pause(1.0), A::Throw],
        3 => vec![pause(1.0), A::Stop(Mode::This)],
        4 => vec![send("m2", true), sayn(id)],
        5 => vec![A::Inc("k", E::N(1.0)), A::If(x("k"), E::N(3.0), vec![send("m", false)], vec![])],
        6 => vec![A::Warp(vec![A::Repeat(x("n"), vec![])]), sayn(id)],
        7 => vec![A::Fork(vec![pause(3.0), sayn(id + 50.0)]), sayn(id)],
        8 => vec![A::Forever(vec![A::Inc("k", E::N(1.0)), A::If(x("n"), x("k"), vec![A::Ret], vec![])])],
        9 => vec![A::Sleep(E::N(1.0)), sayn(id)],
        _ => vec![A::Inc("k", E::N(1.0)), A::If(x("k"), E::N(2.0), vec![send("m", true), sayn(id)], vec![])],
    });
    v
}
const SEND: usize = 11;
fn sender(k: usize) -> Vec<A> {
    let mut v = vec![sayn(0.0)];
    v.extend(match k {
        0 => vec![send("m", true)],
        1 => vec![A::Warp(vec![send("m", true), A::Repeat(E::N(2.0), vec![])])],
        2 => vec![A::Repeat(E::N(2.0), vec![send("m", true), sayn(1.0)])],
        3 => vec![to("m", true, vec![Tgt::Name("A")])],
        4 => vec![to("m", true, vec![Tgt::Name("B"), Tgt::Me, Tgt::Name("A")])],
        5 => vec![A::Try(vec![send("m", true), A::Throw], vec![sayn(2.0)])],
        6 => vec![A::On(Tgt::Name("A"), vec![send("m", true), A::Say(E::Me)])],
        7 => vec![send("nobody", true), sayn(3.0), to("m", true, vec![])],
        8 => vec![send("m", false), send("m", true)],
        9 => vec![send("m", false), sayn(4.0), pause(1.0), send("m2", false)],
        _ => vec![A::Fork(vec![send("m", true), sayn(5.0)]), pause(1.0)],
    });
    v.push(sayn(9.0));
    v
}
fn project(sends: Vec<A>, a: Vec<A>, b: Vec<A>, other: usize) -> Proj {
    let sc = |hat, prog| Sc { hat, prog };
    let mut ents = vec![
        En { name: "Stage", fields: vec![], scripts: vec![sc(Ht::Flag, sends)] },
        En { name: "A", fields: vec![], scripts: vec![sc(Ht::Msg(Some("m")), a)] },
        En { name: "B", fields: vec![], scripts: vec![sc(Ht::Msg(Some("m2")), vec![sayn(20.0), pause(1.0), sayn(21.0)]), sc(Ht::Msg(Some("m")), b)] },
    ];
    match other {
        0 => (),
        1 => ents[1].scripts.push(sc(Ht::Flag, vec![pause(1.0), A::Stop(Mode::MyOthers), sayn(30.0)])),
        2 => ents[2].scripts.push(sc(Ht::Flag, vec![pause(1.0), send("m", false), sayn(31.0)])),
        3 => ents[2].scripts.insert(0, sc(Ht::Msg(None), vec![A::Say(E::Msg), A::Repeat(x("n"), vec![]), sayn(32.0)])),
        _ => ents[1].scripts.push(sc(Ht::Flag, vec![send("m", true), sayn(33.0)])),
    }
    Proj { globals: vec![("n", (any_u8() & 3) as f64), ("k", 0.0)], ents }
}
/// receivers start (again) when the message is sent; a sender that waits goes on after all it started have ended, however they ended
pub fn waiting() {
    let (s, a, b, o) = (choice(SEND), choice(RECV), [1, 2, 4][choice(if cfg!(feature = "deep") { 3 } else { 2 })], choice(5));
    let p = project(sender(s), recv(a, 10.0), recv(b, 15.0), o);
    cover!();
    let mut pokes = vec![Poke::Start];
    if a == 9 { pokes.extend([Poke::None, Poke::None, Poke::None, Poke::Time(1000)]); }
    side_by_side(&p, &pokes, 16);
}
/// the message is what the script was started with, also when it is no name the project knows, and sending what is no text or to what is no entity is an error
pub fn messages() {
    let m = ["", "m", "M", "m ", "é"][choice(5)];
    let k = choice(5);
    let sends = match k {
        0 => vec![A::Send { msg: E::T(m), wait: true, to: None }],
        1 => vec![A::Set("k", E::T(m)), A::Send { msg: x("k"), wait: false, to: None }, A::Set("k", E::T("other")), sayn(1.0)],
        2 => vec![A::Try(vec![A::Send { msg: E::T(m), wait: true, to: Some(vec![Tgt::Name("A"), Tgt::Var("k")]) }], vec![sayn(2.0)])],
        3 => vec![A::Send { msg: E::T(m), wait: false, to: Some(vec![Tgt::Name("B"), Tgt::Name("B")]) }, A::Say(E::Msg)],
        _ => vec![A::Send { msg: E::T("m2"), wait: true, to: None }, A::Send { msg: E::T(m), wait: true, to: None }],
    };
    let p = project(sends, vec![A::Say(E::Msg), pause(1.0), A::Say(E::Msg), A::Fork(vec![A::Say(E::Msg)])], vec![A::On(Tgt::Name("A"), vec![A::Say(E::Msg)])], choice(2) * 3);
    side_by_side(&p, &[Poke::Start], 12);
}
/// messages and the names of who they are for count character by character
pub fn names() {
    let k = choice(4);
    let (sent, heard) = match choice(3) { 0 => (any_text("m", ""), any_text("m", "")), 1 => (any_text("", " x"), any_text("", " x")), _ => (any_text("m ", "x"), any_text("", " x")) };
    let wait = choice(2) == 1;
    let sends = match k {
        0 => vec![A::Send { msg: E::T(sent), wait, to: None }],
        1 => vec![A::Send { msg: E::T(sent), wait, to: Some(vec![Tgt::Name("B"), Tgt::Name("A")]) }],
        2 => vec![A::Set("k", E::T(sent)), A::Send { msg: x("k"), wait, to: None }, A::Set("k", E::T(heard)), A::Send { msg: x("k"), wait: true, to: Some(vec![Tgt::Name("A")]) }],
        _ => vec![A::Send { msg: E::T("other"), wait, to: None }, A::Send { msg: E::T(sent), wait, to: Some(vec![Tgt::Name("A")]) }],
    };
    let mut p = project(sends, vec![A::Say(E::Msg), pause(1.0), sayn(5.0)], vec![A::Say(E::Msg), pause(2.0)], 3);
    p.ents[1].scripts[0].hat = Ht::Msg(Some(heard));
    cover!();
    side_by_side(&p, &[Poke::Start], 12);
}
harnesses!(waiting, messages, names);
