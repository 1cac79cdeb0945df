//! P19 messages between projects and replies to them
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sched::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::json::{Json, JsonNumber};

fn x(k: &'static str) -> E { E::Var(k) }
fn sayn(v: f64) -> A { A::Say(E::N(v)) }
fn pause(n: f64) -> A { A::Repeat(E::N(n), vec![]) }
/// what receivers do
const RECV: usize = 9;
fn recv(k: usize, id: f64) -> Vec<A> {
    let mut v = vec![sayn(id), A::Say(x("p")), A::Say(x("q"))];
    v.extend(match k {
        0 => vec![],
        1 => vec![A::Reply(x("p")), A::Inc("p", x("q")), A::Reply(x("p")), A::Say(x("p"))],
        2 => vec![A::Repeat(x("n"), vec![]), A::Reply(E::Plus(Box::new(x("p")), Box::new(x("q"))))],
        3 => vec![A::Repeat(x("n"), vec![A::Reply(x("q")), sayn(id + 1.0)])],
        4 => vec![A::On(Tgt::Name("B"), vec![pause(1.0), A::Reply(E::T("text"))])],
        5 => vec![A::Fork(vec![A::Reply(E::N(3.0)), sayn(id + 2.0)]), pause(2.0), A::Reply(x("q"))],
        6 => vec![A::Try(vec![A::Reply(E::Me), sayn(id + 3.0)], vec![A::Reply(E::N(4.0))]), A::Say(E::Msg)],
        7 => vec![A::Send { msg: E::T("m"), wait: true, to: None }, A::Throw],
        _ => vec![pause(1.0), A::Stop(Mode::This)],
    });
    v
}
const POKES: usize = 11;
fn poke(k: usize, i: usize, a: f64, b: f64) -> Poke {
    match k {
        0 => Poke::None,
        1 => Poke::Net("net", vec![("p", a), ("q", b)], Some(i)),
        2 => Poke::Net("net", vec![("q", a)], Some(i)),
        3 => Poke::Net("net", vec![("zz", a), ("p", b)], None),
        4 => Poke::Net("other", vec![("p", a)], Some(i)),
        5 => Poke::Net("NET", vec![("p", a)], Some(i)),
        6 => Poke::Net("", vec![("p", a)], Some(i)),
        7 => Poke::Start,
        8 => Poke::Stop,
        9 => Poke::Custom("net", vec![("p", a)], false, 2),
        _ => Poke::Key("a"),
    }
}
/// messages that arrive start their scripts, queue without limit, bind their fields, and are answered at most once by each script
pub fn arriving() {
    let r = choice(RECV);
    let len = if cfg!(feature = "deep") { 4 } else { 3 };
    let sc = |hat, prog| Sc { hat, prog };
    let p = Proj { globals: vec![("n", (any_u8() & 3) as f64), ("p", 70.0), ("q", 71.0)], ents: vec![
        En { name: "A", fields: vec![("q", 80.0)], scripts: vec![sc(Ht::Net("net", vec!["p", "q"]), recv(r, 100.0)), sc(Ht::Net("other", vec![]), vec![sayn(1.0), A::Say(x("p")), A::Reply(x("q"))])] },
        En { name: "B", fields: vec![("p", 90.0)], scripts: vec![sc(Ht::Net("net", vec!["q"]), vec![sayn(2.0), A::Say(x("p")), A::Say(x("q")), pause(1.0), A::Reply(x("q"))]), sc(Ht::Msg(None), vec![sayn(3.0), A::Reply(E::N(9.0))]), sc(Ht::Flag, vec![A::Reply(E::N(8.0)), sayn(4.0)]), sc(Ht::Net("", vec!["p"]), vec![A::Say(x("p"))])] },
    ] };
    let pokes: Vec<Poke> = (0..len).map(|i| { let k = if i == 0 && !cfg!(feature = "deep") { [1, 2, 3, 4, 6, 9][choice(6)] } else { choice(POKES) }; poke(k, i, any_int(), any_int()) }).collect();
    cover!();
    side_by_side(&p, &pokes, 24);
}
/// many messages for one busy script are all taken up, in order
pub fn bursts() {
    let (len, end) = (1 + choice(4), choice(3));
    let p = Proj { globals: vec![("n", (any_u8() & 3) as f64)], ents: vec![En { name: "A", fields: vec![], scripts: vec![Sc { hat: Ht::Net("net", vec!["p"]), prog: vec![A::Say(x("p")), A::Repeat(x("n"), vec![]), A::Reply(x("p")), pause(4.0)].into_iter().chain(match end { 0 => vec![], 1 => vec![A::Stop(Mode::This)], _ => vec![A::Throw] }).collect() }] }] };
    let pokes: Vec<Poke> = (0..len).map(|i| Poke::Net("net", vec![("p", any_int())], Some(i))).collect();
    cover!();
    side_by_side(&p, &pokes, 30);
}

// ---- sending
/// values to send: the expression and what is sent, none if it cannot be
const VALS: usize = 10;
fn value(k: usize, a: f64, b: f64) -> (Expr, Option<V>) {
    let id = |i: f64, r: f64| if i == r { V::B(true) } else { V::B(false) };
    match k {
        0 => (var("a"), Some(n(a))),
        1 => (txt("<x \"&'> é"), Some(t("<x \"&'> é"))),
        2 => (less(var("a"), var("b")), Some(V::B(a < b))),
        3 => (list(vec![var("b"), txt(""), list(vec![]), list(vec![var("a")])]), Some(l(vec![n(b), t(""), l(vec![]), l(vec![n(a)])]))),
        4 => (var("l"), Some(l(vec![n(a), n(b), t("z")]))),
        5 => (clos(&[], &[], vec![]), None),
        6 => (e(X::This), None),
        7 => (list(vec![num(1.0), ent("Stage")]), None),
        8 => (list(vec![var("l"), var("l")]), Some(l(vec![l(vec![n(a), n(b), t("z")]), l(vec![n(a), n(b), t("z")])]))),
        _ => { let _ = id; (var("cyc"), None) }
    }
}
const TGTS: usize = 10;
fn target(k: usize) -> (Expr, Option<Vec<&'static str>>) {
    match k {
        0 => (txt("role@proj@user"), Some(vec!["role@proj@user"])),
        1 => (txt(""), Some(vec![""])),
        2 => (list(vec![txt("b"), txt("a"), txt("b")]), Some(vec!["b", "a", "b"])),
        3 => (list(vec![]), Some(vec![])),
        4 => (num(3.0), None),
        5 => (list(vec![txt("a"), num(5.0)]), None),
        6 => (list(vec![list(vec![txt("a")])]), None),
        7 => (boolean(true), None),
        8 => (e(X::This), None),
        _ => (e(X::StrCat { values: bx(list(vec![txt("a"), txt("b")])) }), Some(vec!["ab"])),
    }
}
const NAMES: [(&str, [&str; 3]); 4] = [("msg", ["x", "y", "z"]), ("", ["", " ", "a b"]), ("ünï \\ \"", ["é", "{", ","]), ("m", ["zz", "aa", "mm"])];
/// sending passes type, fields, values and targets to the system exactly once, or fails and sends nothing
pub fn sending() {
    let (v0, tk, nm, how) = (choice(VALS), choice(TGTS), choice(NAMES.len()), choice(4));
    let (a, b) = (any_int(), any_int());
    let (x0, w0) = value(v0, a, b);
    let (tx, tw) = target(tk);
    let (ty, fs) = NAMES[nm];
    let nf = how.min(3);
    let fields: Vec<(&str, Expr, Option<V>)> = vec![(fs[0], x0, w0), (fs[1], var("b"), Some(n(b))), (fs[2], txt("5"), Some(t("5")))].into_iter().take(nf).collect();
    let want: Option<Vec<(String, V)>> = fields.iter().map(|(k, _, w)| w.clone().map(|w| (str_of(k), w))).collect();
    let values: Vec<_> = fields.into_iter().map(|(k, x, _)| (k.into(), x)).collect();
    let ask = choice(2) == 1;
    let snd = if ask { assign("got", e(X::NetworkMessageReply { target: bx(tx), msg_type: ty.into(), values })) } else { s(K::SendNetworkMessage { target: bx(tx), msg_type: ty.into(), values }) };
    let stmts = vec![locals(&["cyc", "got"]), assign("cyc", list(vec![num(1.0)])), push("cyc", var("cyc")), assign("l", list(vec![var("a"), var("b"), txt("z")])), tryc(vec![snd, assign("l", num(7.0))], "er", vec![ret(num(-1.0))]), ret(list(vec![var("l"), var("got")]))];
    let mut r = main_role(&["a", "b"], stmts);
    r.globals = vec![vi("l", AV::Number(0.0))];
    let sys = Sys::new();
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("a", nv(a)), ("b", nv(b))]);
        let end = match run.to_end(mc, 300) { End::Ok(v) => snap(&v), _ => { check!(false); return } };
        cover!();
        let log = sys.log.borrow();
        match (want, tw) {
            (Some(mut w), Some(tw)) => {
                check!(veq(&end, &l(vec![n(7.0), if ask { t("") } else { n(0.0) }])));
                check!(log.len() == 1);
                match &log[0] {
                    Ev::Send(m, vs, ts, ex) => {
                        check!(m == ty && *ex == ask && ts.len() == tw.len() && ts.iter().zip(&tw).all(|(x, y)| x == y));
                        check!(vs.len() == w.len());
                        for (k, v) in vs { match w.iter().position(|x| x.0 == *k) { Some(i) => { let (_, y) = w.remove(i); check!(veq(v, &y)); } None => check!(false) } }
                    }
                    _ => check!(false),
                }
            }
            _ => { check!(veq(&end, &n(-1.0))); check!(log.is_empty()) }
        }
    });
}
fn json(k: usize, a: f64) -> (Option<Json>, Option<V>) {
    let num = |x: f64| Json::Number(JsonNumber::from_f64(x).unwrap());
    match k {
        0 => (None, Some(t(""))),
        1 => (Some(num(a)), Some(n(a))),
        2 => (Some(Json::String("text".into())), Some(t("text"))),
        3 => (Some(Json::Array(vec![Json::Bool(true), num(a), Json::Array(vec![])])), Some(l(vec![V::B(true), n(a), l(vec![])]))),
        4 => (Some(Json::Null), None),
        5 => (Some(Json::Array(vec![num(a), Json::Null])), None),
        _ => (Some(Json::String(String::new())), Some(t(""))),
    }
}
/// a sender that asked for a reply waits for it, letting others run, and goes on with exactly that reply
pub fn answers() {
    let (k, j) = (choice(7), choice(7));
    let (w0, w1) = (choice(4), choice(3));
    let place = choice(4);
    let (a, b) = (any_int(), any_int());
    let ask = |x: Expr| e(X::NetworkMessageReply { target: bx(txt("t")), msg_type: "m".into(), values: vec![("v".into(), x)] });
    let two = || vec![num(70.0), ask(var("a")), var("b"), ask(var("b")), num(71.0)];
    let body = match place {
        0 => vec![assign("r", list(two()))],
        1 => vec![warp(vec![assign("r", list(two()))])],
        2 => vec![assign("r", call("all", two()))],
        _ => vec![repeat(num(1.0), vec![assign("r", callc(clos(&["p"], &["a", "b"], vec![ret(list(two()))]), vec![num(0.0)]))])],
    };
    let mut r = main_role(&["a", "b"], vec![locals(&["r"]), tryc(body, "er", vec![ret(num(-1.0))]), ret(var("r"))]);
    r.funcs.push(func("all", &["a1", "a2", "a3", "a4", "a5"], vec![ret(list(vec![var("a1"), var("a2"), var("a3"), var("a4"), var("a5")]))]));
    let sys = Sys::new();
    let ((x0, y0), (x1, y1)) = (json(k, a), json(j, b));
    { let mut q = sys.replies.borrow_mut(); for _ in 0..w0 { q.push_back(None) } q.push_back(Some(x0)); for _ in 0..w1 { q.push_back(None) } q.push_back(Some(x1)); }
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("a", nv(a)), ("b", nv(b))]);
        let end = match run.to_end(mc, 300) { End::Ok(v) => snap(&v), _ => { check!(false); return } };
        cover!();
        let sends = sys.log.borrow().len();
        let lp = if place == 3 { 1 } else { 0 };
        match (y0, y1) {
            (Some(y0), Some(y1)) => { check!(veq(&end, &l(vec![n(70.0), y0, n(b), y1, n(71.0)]))); check!(sends == 2 && run.yields == w0 + w1 + lp) }
            (None, _) => { check!(veq(&end, &n(-1.0))); check!(sends == 1 && run.yields == w0) }
            (_, None) => { check!(veq(&end, &n(-1.0))); check!(sends == 2 && run.yields == w0 + w1) }
        }
    });
}
/// the names of messages, fields and targets count character by character, sent and received
pub fn names() {
    let k = choice(5);
    let v = any_int();
    if k < 2 {
        let sc = |hat, prog| Sc { hat, prog };
        let (heard, sent, want, given) = match (k, choice(2)) { (0, 0) => (any_text("n", ""), any_text("n", ""), "p", "p"), (0, _) => (any_text("", " t"), any_text("", " t"), "p", "p"), (_, 0) => ("net", "net", "p", any_text("", "")), _ => ("net", "net", "p x", any_text("p", "x")) };
        let p = Proj { globals: vec![("n", 0.0)], ents: vec![En { name: "A", fields: vec![], scripts: vec![sc(Ht::Net(heard, vec!["q", want]), vec![A::Say(x(want)), A::Say(x("q")), A::Reply(x(want))]), sc(Ht::Net("net", vec![]), vec![sayn(1.0)])] }] };
        cover!();
        return side_by_side(&p, &[Poke::Net(sent, vec![(given, v), ("zz", 5.0)], Some(1)), Poke::None], 8);
    }
    let y = match choice(3) { 0 => any_text("", ""), 1 => any_text("a", "b"), _ => any_text("", "@role") };
    let w = |i: usize, plain: &'static str| if k == i { y } else { plain };
    let ask = choice(2) == 1;
    let sys = Sys::new();
    let values = vec![(w(3, "f").into(), num(1.0)), ("gg".into(), var("a"))];
    let target = list(vec![txt("r1"), txt(w(4, "r2")), txt(" r3 ")]);
    let snd = if ask { assign("got", e(X::NetworkMessageReply { target: bx(target), msg_type: w(2, "net").into(), values })) } else { s(K::SendNetworkMessage { target: bx(target), msg_type: w(2, "net").into(), values }) };
    let r = main_role(&["a"], vec![locals(&["got"]), snd, ret(num(5.0))]);
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("a", nv(v))]);
        let end = match run.to_end(mc, 300) { End::Ok(v) => snap(&v), _ => { check!(false); return } };
        cover!();
        check!(veq(&end, &n(5.0)));
        let log = sys.log.borrow();
        check!(log.len() == 1);
        match &log[0] {
            Ev::Send(m, vs, ts, ex) => {
                check!(*m == w(2, "net") && *ex == ask && ts.len() == 3 && ts[0] == "r1" && ts[1] == w(4, "r2") && ts[2] == " r3 ");
                check!(vs.len() == 2 && vs.iter().any(|(n, _)| *n == w(3, "f")) && vs.iter().any(|(k, x)| *k == "gg" && veq(x, &n(v))));
            }
            _ => check!(false),
        }
    });
}
harnesses!(arriving, bursts, sending, answers, names);
