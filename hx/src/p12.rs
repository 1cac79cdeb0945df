//! P12 requests and commands to the system
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::vec; use alloc::vec::Vec; use alloc::string::String;

fn a() -> Expr { var("a") }
fn b() -> Expr { var("b") }
fn o(x: &str) -> String { x.into() }
#[derive(Clone, Copy, PartialEq)]
enum Kind { Rpc, Sys, Other }
/// reporters that ask the system for a value: the block, what the system is asked, whose error scheme applies
const REQS: usize = 14;
fn req(k: usize, va: &V, vb: &V) -> (Expr, Ev, Kind) {
    let rpc = |host: Option<&str>, args: Vec<(&str, Expr)>| e(X::CallRpc { host: host.map(|x| x.into()), service: "Svc".into(), rpc: "go".into(), args: args.into_iter().map(|(k, v)| (k.into(), v)).collect() });
    let unk = |n: &str, args: Vec<Expr>| e(X::UnknownBlock { name: n.into(), args });
    let p = |p: Property| Ev::GetProp(p as u8);
    match k {
        0 => (rpc(None, vec![("x", a()), ("y", b())]), Ev::Rpc(None, o("Svc"), o("go"), vec![(o("x"), va.clone()), (o("y"), vb.clone())]), Kind::Rpc),
        1 => (rpc(Some("host 1"), vec![]), Ev::Rpc(Some(o("host 1")), o("Svc"), o("go"), vec![]), Kind::Rpc),
        2 => (rpc(None, vec![("", b()), ("y z", a()), ("q", list(vec![a()]))]), Ev::Rpc(None, o("Svc"), o("go"), vec![(o(""), vb.clone()), (o("y z"), va.clone()), (o("q"), l(vec![va.clone()]))]), Kind::Rpc),
        3 => (unk("nativeCallSyscall", vec![txt("sys"), list(vec![a(), b()])]), Ev::Syscall(o("sys"), vec![va.clone(), vb.clone()]), Kind::Sys),
        4 => (unk("nativeCallSyscall", vec![txt("sys"), var("l")]), Ev::Syscall(o("sys"), vec![vb.clone(), va.clone(), n(3.0)]), Kind::Sys),
        5 => (unk("nativeCallSyscall", vec![txt(""), list(vec![])]), Ev::Syscall(o(""), vec![]), Kind::Sys),
        6 => (unk("strange", vec![b(), a()]), Ev::Unknown(o("strange"), vec![vb.clone(), va.clone()]), Kind::Other),
        7 => (unk("", vec![]), Ev::Unknown(o(""), vec![]), Kind::Other),
        8 => (e(X::XPos), p(Property::XPos), Kind::Other),
        9 => (e(X::YPos), p(Property::YPos), Kind::Other),
        10 => (e(X::Heading), p(Property::Heading), Kind::Other),
        11 => (e(X::Size), p(Property::Size), Kind::Other),
        12 => (e(X::IsVisible), p(Property::Visible), Kind::Other),
        _ => (e(X::PenDown), p(Property::PenDown), Kind::Other),
    }
}
/// blocks that tell the system to do something
const CMDS: usize = 22;
fn cmd(k: usize, va: &V, vb: &V) -> (Stmt, Ev) {
    let (V::N(na), V::N(nb)) = (va, vb) else { panic!() };
    let bs = || Box::new(b());
    let ba = || Box::new(a());
    let sp = |p: Property| Ev::SetProp(p as u8, va.clone());
    let cp = |p: Property| Ev::ChangeProp(p as u8, va.clone());
    match k {
        0 => (say(list(vec![a(), b()])), Ev::Print(PrintStyle::Say as u8, Some(l(vec![va.clone(), vb.clone()])))),
        1 => (s(K::Think { content: ba(), duration: None }), Ev::Print(PrintStyle::Think as u8, Some(va.clone()))),
        2 => (say(txt("")), Ev::Print(PrintStyle::Say as u8, None)),
        3 => (s(K::SetX { value: ba() }), sp(Property::XPos)),
        4 => (s(K::SetY { value: ba() }), sp(Property::YPos)),
        5 => (s(K::ChangeX { delta: ba() }), cp(Property::XPos)),
        6 => (s(K::ChangeY { delta: ba() }), cp(Property::YPos)),
        7 => (s(K::SetHeading { value: ba() }), sp(Property::Heading)),
        8 => (s(K::TurnRight { angle: ba() }), cp(Property::Heading)),
        9 => (s(K::TurnLeft { angle: ba() }), Ev::ChangeProp(Property::Heading as u8, n(norm(-na)))),
        10 => (s(K::SetSize { value: ba() }), sp(Property::Size)),
        11 => (s(K::ChangeSize { delta: ba() }), cp(Property::Size)),
        12 => (s(K::SetVisible { value: true }), Ev::SetProp(Property::Visible as u8, V::B(true))),
        13 => (s(K::SetPenDown { value: false }), Ev::SetProp(Property::PenDown as u8, V::B(false))),
        14 => (s(K::SetPenSize { value: ba() }), sp(Property::PenSize)),
        15 => (s(K::GotoXY { x: ba(), y: bs() }), Ev::GotoXY(*na, *nb)),
        16 => (s(K::Goto { target: bx(list(vec![b(), a()])) }), Ev::GotoXY(*nb, *na)),
        17 => (s(K::PointTowardsXY { x: ba(), y: bs() }), Ev::PointXY(*na, *nb)),
        18 => (s(K::PointTowards { target: bx(list(vec![b(), a()])) }), Ev::PointXY(*nb, *na)),
        19 => (s(K::Goto { target: bx(ent("Other")) }), Ev::GotoEntity(o("Other"))),
        20 => (s(K::PointTowards { target: bx(ent("Other")) }), Ev::PointEntity(o("Other"))),
        _ => (s(K::Forward { distance: ba() }), Ev::Forward(*na)),
    }
}
/// blocks without operands
fn plain(k: usize) -> (Stmt, Ev) {
    match k {
        0 => (s(K::ClearEffects), Ev::ClearEffects),
        1 => (s(K::PenClear), Ev::ClearDrawings),
        2 => (s(K::StopSounds), Ev::StopSounds),
        3 => (s(K::SetPenColor { color: (1, 2, 3, 4) }), Ev::SetProp(Property::PenColor as u8, n(67174915.0))),
        _ => (say(e(X::This)), Ev::Print(PrintStyle::Say as u8, Some(V::E(o("Stage"))))),
    }
}
fn evs(a: &[V], b: &[V]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= veq(&a[i], &b[i]); } r }
/// equality of events with symbolic values inside
fn same(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Syscall(n, x), Ev::Syscall(m, y)) | (Ev::Unknown(n, x), Ev::Unknown(m, y)) => n == m && evs(x, y),
        (Ev::Rpc(h, s, r, x), Ev::Rpc(h2, s2, r2, y)) => h == h2 && s == s2 && r == r2 && x.len() == y.len() && { let mut k = true; for i in 0..x.len() { k &= x[i].0 == y[i].0 && veq(&x[i].1, &y[i].1); } k },
        (Ev::Print(s, Some(x)), Ev::Print(s2, Some(y))) => s == s2 && veq(x, y),
        (Ev::SetProp(p, x), Ev::SetProp(q, y)) | (Ev::ChangeProp(p, x), Ev::ChangeProp(q, y)) => p == q && veq(x, y),
        (Ev::GotoXY(x, y), Ev::GotoXY(u, v)) | (Ev::PointXY(x, y), Ev::PointXY(u, v)) => (x == u) & (y == v),
        (Ev::Forward(x), Ev::Forward(y)) => x == y,
        (Ev::Input(Some(x)), Ev::Input(Some(y))) => veq(x, y),
        _ => a == b,
    }
}
/// what the system does with a request or command
#[derive(Clone, Copy, PartialEq)]
enum Out { Good, Bad, Broken, Refused }
const OUTS: [Out; 4] = [Out::Good, Out::Bad, Out::Broken, Out::Refused];
struct Seen { end: Option<V>, yields: usize, log: Vec<Ev>, who: Vec<String>, polled: Vec<usize> }
/// runs `stmts` with one request or command answered after `wait` polls
fn run(stmts: Vec<Stmt>, args: (f64, f64), wait: usize, out: Out, val: SimpleValue, set: Settings) -> Seen {
    let mut r = main_role(&["a", "b"], stmts);
    r.entities.push(entity("Other"));
    r.funcs.push(func("id", &["p"], vec![ret(var("p"))]));
    r.globals = vec![vi("l", AV::Number(0.0)), vi("r", AV::Number(0.0))];
    let sys = Sys::new();
    for _ in 0..wait { sys.polls.borrow_mut().push_back(Poll::Pending); }
    match out { Out::Good => sys.polls.borrow_mut().push_back(Poll::Ok(val)), Out::Bad => sys.polls.borrow_mut().push_back(Poll::Err("boom")), Out::Broken => sys.polls.borrow_mut().push_back(Poll::HardErr), Out::Refused => sys.refuse.set(true) }
    let mut s = Seen { end: None, yields: 0, log: vec![], who: vec![], polled: vec![] };
    gc(|mc| {
        let mut run = start(mc, &r, &sys, set, vec![("a", nv(args.0)), ("b", nv(args.1))]);
        match run.to_end(mc, 200) { End::Ok(v) => s.end = Some(snap(&v)), End::Err(..) => (), _ => panic!("did not finish") }
        s.yields = run.yields;
    });
    s.log = sys.log.borrow().clone(); s.who = sys.who.borrow().clone(); s.polled = sys.polled.borrow().clone();
    s
}
fn polled_ok(s: &Seen, wait: usize, out: Out) -> bool { s.polled.len() == if out == Out::Refused { 0 } else { wait + 1 } && s.polled.iter().all(|x| *x == 0) }
fn catching(st: Vec<Stmt>, then: Vec<Stmt>) -> Vec<Stmt> { let mut v = vec![assign("l", list(vec![b(), a(), num(3.0)])), tryc(st, "er", vec![ret(num(-1.0))])]; v.extend(then); v }
/// a request is made once with its arguments, polled once per step until it is done, and its result used once
pub fn requests() {
    let k = choice(REQS);
    let w = choice(4);
    let out = OUTS[choice(4)];
    let ctx = choice(4);
    let hard = choice(2) == 0;
    let (na, nb) = (any_int(), any_int());
    let (x, ev, kind) = req(k, &n(na), &n(nb));
    let v = any_int();
    let scheme = if hard { ErrorScheme::Hard } else { ErrorScheme::Soft };
    let other = if hard { ErrorScheme::Soft } else { ErrorScheme::Hard };
    let set = match kind { Kind::Sys => Settings { syscall_error_scheme: scheme, rpc_error_scheme: other, ..Settings::default() }, _ => Settings { rpc_error_scheme: scheme, syscall_error_scheme: other, ..Settings::default() } };
    let stmts = match ctx {
        0 => catching(vec![assign("r", list(vec![num(70.0), x, num(71.0)]))], vec![ret(var("r"))]),
        1 => catching(vec![warp(vec![ret(list(vec![num(70.0), call("id", vec![x]), num(71.0)]))])], vec![]),
        2 => catching(vec![repeat(num(1.0), vec![assign("r", callc(clos(&["p"], &[], vec![ret(list(vec![num(70.0), var("p"), num(71.0)]))]), vec![x]))])], vec![ret(var("r"))]),
        _ => { let mut v = catching(vec![], vec![]); v.push(ret(list(vec![num(70.0), x, num(71.0)]))); v }
    };
    let s = run(stmts, (na, nb), w, out, SimpleValue::Number(Number::new(v).unwrap()), set);
    cover!();
    let soft = !hard && kind != Kind::Other;
    let want = match out { Out::Good => Some(n(v)), Out::Bad if soft => Some(t("boom")), _ => None };
    let want = match want { Some(x) => Some(l(vec![n(70.0), x, n(71.0)])), None if ctx == 3 => None, None => Some(n(-1.0)) };
    check!(match (&s.end, &want) { (Some(x), Some(y)) => veq(x, y), (None, None) => true, _ => false });
    let loops = if ctx == 2 && !matches!(&want, Some(V::N(_))) { 1 } else { 0 };
    check!(s.yields == (if out == Out::Refused { 0 } else { w }) + loops);
    check!(polled_ok(&s, w, out));
    check!(if out == Out::Refused { s.log.is_empty() } else { s.log.len() == 1 && same(&s.log[0], &ev) && s.who == ["Stage"] });
}
/// commands are given once, polled once per step until they are done, and fail as a whole
pub fn commands() {
    let k = choice(CMDS + 5);
    let w = choice(3);
    let out = OUTS[choice(4)];
    let ctx = choice(3);
    let (na, nb) = (any_int(), any_int());
    let (st, ev) = if k < CMDS { cmd(k, &n(na), &n(nb)) } else { plain(k - CMDS) };
    let stmts = match ctx {
        0 => vec![tryc(vec![st], "er", vec![ret(num(-1.0))]), ret(a())],
        1 => vec![repeat(num(1.0), vec![tryc(vec![warp(vec![st])], "er", vec![ret(num(-1.0))])]), ret(a())],
        _ => vec![st, ret(a())],
    };
    let s = run(stmts, (na, nb), w, out, SimpleValue::Bool(true), Settings { rpc_error_scheme: ErrorScheme::Soft, syscall_error_scheme: ErrorScheme::Soft, ..Settings::default() });
    cover!();
    let want = if out == Out::Good { Some(n(na)) } else if ctx == 2 { None } else { Some(n(-1.0)) };
    check!(match (&s.end, &want) { (Some(x), Some(y)) => veq(x, y), (None, None) => true, _ => false });
    check!(s.yields == (if out == Out::Refused { 0 } else { w }) + (ctx == 1 && out == Out::Good) as usize);
    check!(polled_ok(&s, w, out));
    check!(if out == Out::Refused { s.log.is_empty() } else { s.log.len() == 1 && same(&s.log[0], &ev) && s.who == ["Stage"] });
}
/// the answer of a question, and what is asked
pub fn questions() {
    let w = choice(3);
    let v = any_int();
    let which = choice(4);
    let prompt = match choice(3) { 0 => txt(""), 1 => a(), _ => txt("why?") };
    let asked = match &prompt.kind { X::Variable { .. } => Some(1), X::Value(AV::String(x)) if x.is_empty() => None, _ => Some(2) };
    let first = any_int();
    let ask = || s(K::Ask { prompt: bx(prompt.clone()) });
    let mut r = main_role(&["a", "b"], vec![tryc(vec![say(e(X::Answer)), ask(), say(e(X::Answer)), ask()], "er", vec![say(num(-1.0))]), ret(list(vec![e(X::Answer), e(X::RpcError)]))]);
    r.globals = vec![];
    let sys = Sys::new();
    let val = |x: f64| SimpleValue::Number(Number::new(x).unwrap());
    let done = |p: Poll| sys.polls.borrow_mut().push_back(p);
    done(Poll::Ok(SimpleValue::Number(Number::new(0.0).unwrap()))); // the first say
    for _ in 0..w { done(Poll::Pending); }
    done(Poll::Ok(val(first)));
    done(Poll::Ok(val(0.0))); // the second say
    match which { 0 => done(Poll::Ok(val(v))), 1 => done(Poll::Err("no")), 2 => done(Poll::HardErr), _ => done(Poll::Ok(SimpleValue::Text("words".into()))) }
    let mut end = None;
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings { rpc_error_scheme: ErrorScheme::Soft, syscall_error_scheme: ErrorScheme::Soft, ..Settings::default() }, vec![("a", nv(v)), ("b", nv(0.0))]);
        match run.to_end(mc, 200) { End::Ok(v) => end = Some(snap(&v)), _ => check!(false) }
        check!(run.yields == w);
    });
    cover!();
    let last = match which { 0 => n(v), 3 => t("words"), _ => n(first) };
    check!(end.is_some() && veq(&end.unwrap(), &l(vec![last, t("")])));
    let log = sys.log.borrow();
    let q = Ev::Input(match asked { None => None, Some(1) => Some(n(v)), _ => Some(t("why?")) });
    let p = |x: V| Ev::Print(PrintStyle::Say as u8, if x == t("") { None } else { Some(x) });
    check!(log.len() == 4 + (which == 1 || which == 2) as usize);
    check!(same(&log[0], &p(t(""))) && same(&log[1], &q) && same(&log[2], &p(n(first))) && same(&log[3], &q));
    if log.len() == 5 { check!(same(&log[4], &p(n(-1.0)))); }
}
/// the error of the last request of each kind that failed softly; a success clears it, other kinds leave it alone
pub fn last_errors() {
    let rpc = || e(X::CallRpc { host: None, service: "s".into(), rpc: "r".into(), args: vec![] });
    let sys_ = || e(X::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![txt("n"), list(vec![])] });
    let syserr = || e(X::UnknownBlock { name: "nativeSyscallError".into(), args: vec![] });
    let len = if cfg!(feature = "deep") { 4 } else { 3 };
    let sys = Sys::new();
    let (mut re, mut se) = (t(""), t(""));
    let mut stmts = vec![];
    let mut want = vec![];
    let first = choice(4);
    for i in 0..len {
        let kind = choice(3);
        let bad = any_bool();
        let v = any_int();
        let as_stmt = choice(2) == 1;
        stmts.push(match (kind, as_stmt) {
            (0, false) => push("l", rpc()), (1, false) => push("l", sys_()),
            (0, _) => s(K::CallRpc { host: None, service: "s".into(), rpc: "r".into(), args: vec![] }),
            (1, _) => s(K::UnknownBlock { name: "nativeRunSyscall".into(), args: vec![txt("n"), list(vec![])] }),
            (_, false) => push("l", e(X::UnknownBlock { name: "strange".into(), args: vec![] })), _ => s(K::UnknownBlock { name: "strange".into(), args: vec![] }),
        });
        let bad = bad && kind < 2;
        let (good, v) = match (first + i) % 4 {
            0 => (SimpleValue::Number(Number::new(v).unwrap()), n(v)),
            1 => (SimpleValue::Text("".into()), t("")),
            2 => (SimpleValue::Bool(false), V::B(false)),
            _ => (SimpleValue::List(vec![]), l(vec![])),
        };
        sys.polls.borrow_mut().push_back(if bad { Poll::Err(BAD[i]) } else { Poll::Ok(good) });
        if !as_stmt { want.push(if bad { t(BAD[i]) } else { v }); }
        let er = if bad { t(BAD[i]) } else { t("") };
        if kind == 0 { re = er } else if kind == 1 { se = er }
        stmts.push(push("l", e(X::RpcError))); stmts.push(push("l", syserr()));
        want.push(re.clone()); want.push(se.clone());
    }
    stmts.push(ret(var("l")));
    let mut r = main_role(&[], stmts);
    r.globals = vec![vi("l", AV::List(vec![], None))];
    let mut end = None;
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings { rpc_error_scheme: ErrorScheme::Soft, syscall_error_scheme: ErrorScheme::Soft, ..Settings::default() }, vec![]);
        match run.to_end(mc, 200) { End::Ok(v) => end = Some(snap(&v)), _ => check!(false) }
    });
    cover!();
    check!(veq(&end.unwrap(), &l(want)));
}
const BAD: [&str; 4] = ["boom", "bang", "crash", "boom"];
/// a place to go or turn to is an entity or a list of two numbers, anything else is an error and nothing is asked of the system
pub fn places() {
    let a = any_int();
    let b = any_int();
    let ab = || (var("a"), var("b"));
    let ((x, y), k) = (ab(), choice(13));
    let target = match k {
        0 => list(vec![x, y]),
        1 => list(vec![]), 2 => list(vec![x]), 3 => list(vec![x, y, num(3.0)]), 4 => list(vec![x, txt("word")]), 5 => list(vec![list(vec![x]), y]), 6 => list(vec![list(vec![x, y])]),
        7 => x, 8 => txt("Stage"), 9 => boolean(true), 10 => list(vec![txt("7"), y]), 12 => ent("Nobody"), _ => e(X::This),
    };
    let go = choice(2) == 1;
    let st = if go { s(K::Goto { target: bx(target) }) } else { s(K::PointTowards { target: bx(target) }) };
    let s = run(vec![tryc(vec![st], "er", vec![ret(num(-1.0))]), ret(num(5.0))], (a, b), 0, Out::Good, SimpleValue::Bool(true), Settings::default());
    cover!();
    let at = match k { 0 => Some(a), 10 => Some(7.0), _ => None };
    let want = match at { Some(x) => Some(if go { Ev::GotoXY(x, b) } else { Ev::PointXY(x, b) }), None if k == 11 => Some(if go { Ev::GotoEntity("Stage".into()) } else { Ev::PointEntity("Stage".into()) }), None => None };
    check!(s.end == Some(n(if want.is_some() { 5.0 } else { -1.0 })));
    match want { Some(w) => check!(s.log.len() == 1 && same(&s.log[0], &w)), None => check!(s.log.is_empty()) }
}
/// several scripts waiting at once each get the result of their own request, when it is there
pub fn routing() {
    let scripts = 3;
    let sys = Sys::new();
    let mut st = entity("Stage"); let mut other = entity("Other");
    let mut delays = vec![];
    let x = || e(X::CallRpc { host: None, service: "s".into(), rpc: "r".into(), args: vec![("w".into(), e(X::This))] });
    for i in 0..scripts {
        delays.push(choice(4));
        // the number the script gets says which of all requests it was
        let body = vec![s(K::Assign { var: gv(["p", "q", "r"][i]), value: bx(list(vec![num(1.0), x(), num(2.0)])) })];
        let sc = script(HatKind::OnFlag, body);
        if i == 1 { other.scripts.push(sc) } else { st.scripts.push(sc) }
    }
    let mut r = role(vec![], vec![st, other]);
    r.globals = vec![vi("p", AV::Number(0.0)), vi("q", AV::Number(0.0)), vi("r", AV::Number(0.0))];
    *sys.delays.borrow_mut() = delays.clone();
    gc(|mc| {
        let (code, init, _, _) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => panic!("compile") };
        let mut p: netsblox_vm::project::Project<Cu, Sys> = netsblox_vm::project::Project::from_init(mc, &init, Rc::new(code), Settings::default(), sys.clone());
        p.input(mc, netsblox_vm::project::Input::Start);
        let mut ended = 0;
        for _ in 0..150 { match p.step(mc) { netsblox_vm::project::ProjectStep::ProcessTerminated { .. } => ended += 1, netsblox_vm::project::ProjectStep::Idle => break, netsblox_vm::project::ProjectStep::Error { .. } => check!(false), _ => () } }
        cover!();
        check!(ended == 3);
        // scripts start in order, so request k belongs to the k-th script; entities come in the order of the project
        let order = ["p", "r", "q"];
        let g = p.get_global_context();
        let g = g.borrow();
        for (k, name) in order.iter().enumerate() {
            let v = snap(&*g.globals.lookup(name).unwrap().get());
            check!(veq(&v, &ln(&[1.0, (100 + k) as f64, 2.0])));
        }
    });
    let who = sys.who.borrow();
    check!(*who == ["Stage", "Stage", "Other"]);
    // each request was polled exactly as often as it had to be
    let polled = sys.polled.borrow();
    for k in 0..scripts { check!(polled.iter().filter(|x| **x == k).count() == delays[k] + 1); }
}
/// names reach the system character by character as they are written in the block, as a reporter and as a command
pub fn names() {
    let at = choice(9);
    let stmt = choice(2) == 1;
    let (c, d) = (any_u8() & 127, any_u8() & 127);
    if c == 0 || d == 0 { stop() }
    let mut text = String::new(); text.push(c as char); text.push_str("m n"); text.push(d as char);
    let w = |k: usize, plain: &str| -> String { if k == at { text.clone() } else { plain.into() } };
    let (na, nb) = (any_int(), any_int());
    let args = || vec![(w(3, "x"), a()), (w(4, "y z"), b())];
    let host = if at == 8 { None } else { Some(w(0, "host")) };
    let (x, st, want) = if at < 5 || at == 8 {
        (X::CallRpc { host: host.as_ref().map(|x| x.as_str().into()), service: w(1, "svc").as_str().into(), rpc: w(2, "go").as_str().into(), args: args().into_iter().map(|(k, v)| (k.as_str().into(), v)).collect() },
         K::CallRpc { host: host.as_ref().map(|x| x.as_str().into()), service: w(1, "svc").as_str().into(), rpc: w(2, "go").as_str().into(), args: args().into_iter().map(|(k, v)| (k.as_str().into(), v)).collect() },
         Ev::Rpc(host.clone(), w(1, "svc"), w(2, "go"), vec![(w(3, "x"), n(na)), (w(4, "y z"), n(nb))]))
    } else if at < 7 {
        // as long as one of the blocks the machine knows itself
        if at == 6 { text = text.clone() + "CallSyscalls"; }
        (X::UnknownBlock { name: text.as_str().into(), args: vec![b(), a(), num(3.0)] }, K::UnknownBlock { name: text.as_str().into(), args: vec![b(), a(), num(3.0)] }, Ev::Unknown(text.clone(), vec![n(nb), n(na), n(3.0)]))
    } else {
        let y = || vec![txt(&text), list(vec![b(), a()])];
        (X::UnknownBlock { name: "nativeCallSyscall".into(), args: y() }, K::UnknownBlock { name: "nativeRunSyscall".into(), args: y() }, Ev::Syscall(text.clone(), vec![n(nb), n(na)]))
    };
    let stmts = if stmt { vec![s(st), ret(num(5.0))] } else { vec![assign("r", e(x)), ret(num(5.0))] };
    let s = run(stmts, (na, nb), 0, Out::Good, SimpleValue::Bool(true), Settings::default());
    cover!();
    check!(s.end == Some(n(5.0)));
    check!(s.log.len() == 1 && same(&s.log[0], &want));
}
/// every effect and pen attribute is asked for, set and changed as exactly itself
pub fn properties() {
    use ast::{EffectKind as F, PenAttribute as Q};
    let k = choice(15);
    let how = choice(3);
    let out = OUTS[choice(4)];
    let (na, v) = (any_int(), any_int());
    let ef = || match k { 0 => F::Color, 1 => F::Saturation, 2 => F::Brightness, 3 => F::Ghost, 4 => F::Fisheye, 5 => F::Whirl, 6 => F::Pixelate, 7 => F::Mosaic, _ => F::Negative };
    let pa = || match k { 9 => Q::Size, 10 => Q::Hue, 11 => Q::Saturation, 12 => Q::Brightness, _ => Q::Transparency };
    use Property as R;
    let prop = [R::ColorH, R::ColorS, R::ColorV, R::ColorT, R::Fisheye, R::Whirl, R::Pixelate, R::Mosaic, R::Negative, R::PenSize, R::PenColorH, R::PenColorS, R::PenColorV, R::PenColorT, R::PenSize][k] as u8;
    let x = bx(a());
    let (st, ev) = match how {
        0 => { let r = match k { 0..=8 => X::Effect { kind: ef() }, 14 => X::PenAttr { attr: Q::Size }, _ => X::PenAttr { attr: pa() } }; (assign("r", e(r)), Ev::GetProp(prop)) }
        1 => (s(match k { 0..=8 => K::SetEffect { kind: ef(), value: x }, 14 => K::SetPenSize { value: x }, _ => K::SetPenAttr { attr: pa(), value: x } }), Ev::SetProp(prop, n(na))),
        _ => (s(match k { 0..=8 => K::ChangeEffect { kind: ef(), delta: x }, 14 => K::ChangePenSize { delta: x }, _ => K::ChangePenAttr { attr: pa(), delta: x } }), Ev::ChangeProp(prop, n(na))),
    };
    let s = run(vec![assign("r", num(4.0)), tryc(vec![st], "er", vec![ret(num(-1.0))]), ret(list(vec![var("r"), a()]))], (na, 0.0), 1, out, SimpleValue::Number(Number::new(v).unwrap()), Settings::default());
    cover!();
    let want = if out == Out::Good { l(vec![n(if how == 0 { v } else { 4.0 }), n(na)]) } else { n(-1.0) };
    check!(match &s.end { Some(x) => veq(x, &want), None => false });
    check!(if out == Out::Refused { s.log.is_empty() } else { s.log.len() == 1 && same(&s.log[0], &ev) && s.who == ["Stage"] });
    check!(polled_ok(&s, 1, out));
}
/// saying or thinking something for a time shows it, waits, and then shows nothing; a failure shows nothing more
pub fn speech() {
    let think = choice(2) == 1;
    let warped = choice(2) == 1;
    let out = choice(3); // which of the two requests fails: none, the first, the second
    let secs = (any_u8() & 3) as f64;
    let v = any_int();
    let times: Vec<u64> = (0..4).map(|_| any_u16() as u64 & 4095).collect();
    let (content, duration) = (bx(a()), Some(bx(b())));
    let st = s(if think { K::Think { content, duration } } else { K::Say { content, duration } });
    let r = main_role(&["a", "b"], vec![tryc(vec![if warped { warp(vec![st]) } else { st }], "er", vec![ret(num(-1.0))]), ret(num(5.0))]);
    let sys = Sys::new();
    sys.now.set(1 << 20);
    for i in 1..3 { sys.polls.borrow_mut().push_back(if out == i { Poll::Err("no") } else { Poll::Ok(SimpleValue::Bool(true)) }); }
    let mut end = None;
    let mut yields = 0;
    gc(|mc| {
        let mut run = start(mc, &r, &sys, Settings::default(), vec![("a", nv(v)), ("b", nv(secs))]);
        *sys.times.borrow_mut() = times.iter().copied().collect();
        match run.to_end(mc, 200) { End::Ok(v) => end = Some(snap(&v)), _ => check!(false) }
        yields = run.yields;
    });
    cover!();
    check!(end == Some(n(if out == 0 { 5.0 } else { -1.0 })));
    let style = (if think { PrintStyle::Think } else { PrintStyle::Say }) as u8;
    let log = sys.log.borrow();
    check!(log.len() == if out == 1 { 1 } else { 2 });
    check!(same(&log[0], &Ev::Print(style, Some(n(v)))));
    if out != 1 { check!(log[1] == Ev::Print(style, None)); }
    // the first time is when it began to wait; the clock then runs out of the times given, long after
    let until = times[0] + secs as u64 * 1000;
    let late = times[1..].iter().take_while(|x| **x < until).count();
    check!(yields == if out == 1 { 0 } else if secs == 0.0 { 1 } else { late });
}
use alloc::rc::Rc;
harnesses!(requests, commands, questions, last_errors, places, routing, names, properties, speech);
