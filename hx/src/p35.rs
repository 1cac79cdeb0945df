//! P35 what a system keeps for scripts and sprites is made for exactly these
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::project::{Input, Project, ProjectStep};

fn mark(v: Expr) -> Stmt { s(K::SetPenSize { value: bx(v) }) }
fn own(v: Expr) -> Stmt { s(K::SetSize { value: bx(v) }) }
fn fork(v: Vec<Stmt>) -> Stmt { s(K::ForkClosure { closure: bx(clos(&[], &[], v)), args: vec![] }) }
fn at(who: Expr, v: Vec<Stmt>) -> Stmt { s(K::CallClosure { new_entity: Some(bx(who)), closure: bx(clos(&[], &[], v)), args: vec![] }) }
fn send(m: &str, wait: bool, to: Option<Expr>) -> Stmt { s(K::SendLocalMessage { target: to.map(bx), msg_type: bx(txt(m)), wait }) }
fn clone(who: Expr) -> Stmt { s(K::Clone { target: bx(who) }) }
fn a() -> Expr { ent("A") }
type Line = Vec<(&'static str, usize, f64, f64)>;
const WAYS: usize = 12;
/// how one script brings others to life, and the ancestry of each of them; e is the sprite of the script, x and y are its marks
fn ways(k: usize, e: &'static str, x: f64, y: f64) -> (Vec<Stmt>, Vec<(f64, Line)>) {
    let (vx, vy) = (|| mark(var("x")), || mark(var("y")));
    let root = (e, 0, 0.0, -1.0);
    // clones say 20 and fork one that says 21
    let woken = |v: &mut Vec<(f64, Line)>, l: Line, own: f64| {
        v.push((20.0, l.clone()));
        let (name, level, ..) = *l.last().unwrap();
        let mut m = l; m.push((name, level, own, 6.0));
        v.push((21.0, m));
    };
    let mut out: Vec<(f64, Line)> = vec![(1.0, vec![root])];
    let body = match k {
        0 => vec![],
        1 => { out.push((2.0, vec![root, (e, 0, 0.0, x)])); vec![vx(), fork(vec![say(num(2.0))]), vy()] }
        2 => { out.push((2.0, vec![root, (e, 0, 0.0, x)])); out.push((3.0, vec![root, (e, 0, 0.0, x), (e, 0, 0.0, 4.0)])); out.push((4.0, vec![root, (e, 0, 0.0, y)])); vec![vx(), fork(vec![say(num(2.0)), mark(num(4.0)), fork(vec![say(num(3.0))])]), vy(), fork(vec![say(num(4.0))])] }
        3 => { out.push((2.0, vec![root, ("A", 0, 0.0, x)])); vec![vx(), at(a(), vec![fork(vec![say(num(2.0))]), vy()])] }
        4 | 5 => { // to everybody
            out.push((10.0, vec![root, ("A", 0, 0.0, x)])); out.push((11.0, vec![root, ("A", 0, 0.0, x), ("A", 0, 0.0, 5.0)])); out.push((12.0, vec![root, ("Stage", 0, 0.0, x)]));
            vec![vx(), send("m", k == 4, None), vy()]
        }
        6 => { out.push((12.0, vec![root, ("Stage", 0, 0.0, x)])); vec![vx(), at(a(), vec![send("m", true, Some(ent("Stage")))]), vy()] }
        7 => { // from a fork
            let l = vec![root, (e, 0, 0.0, x), ("A", 0, 0.0, y)];
            out.push((10.0, l.clone()));
            let mut m = l; m.push(("A", 0, 0.0, 5.0)); out.push((11.0, m));
            vec![vx(), fork(vec![vy(), send("m", true, Some(a()))]), mark(num(9.0))]
        }
        8 => { woken(&mut out, vec![root, ("A", 1, 0.0, x)], 7.0); vec![vx(), clone(a()), vy()] }
        9 => { // the clone has the state its original had when it was made
            woken(&mut out, vec![root, ("A", 1, y, x)], 7.0); vec![vx(), at(a(), vec![own(var("y"))]), clone(a()), at(a(), vec![own(num(8.0))]), vy()]
        }
        10 => { // the clone of a clone
            woken(&mut out, vec![root, ("A", 1, 0.0, x)], 7.0); woken(&mut out, vec![root, ("A", 2, y, x)], 7.0);
            vec![vx(), assign("c", e_clone(a())), at(var("c"), vec![own(var("y"))]), warp(vec![assign("c", e_clone(var("c")))])]
        }
        _ => { // a clone that is sent a message
            woken(&mut out, vec![root, ("A", 1, 0.0, x)], 7.0);
            let l = vec![root, ("A", 1, 7.0, y)];
            out.push((10.0, l.clone()));
            let mut m = l; m.push(("A", 1, 7.0, 5.0)); out.push((11.0, m));
            vec![vx(), assign("c", e_clone(a())), vy(), repeat(num(3.0), vec![]), send("m", true, Some(var("c")))]
        }
    };
    let mut v = vec![say(num(1.0))];
    v.extend(body);
    (v, out)
}
fn e_clone(v: Expr) -> Expr { e(X::Clone { target: bx(v) }) }
/// whatever starts a script, and whatever it starts, each gets a state made for the sprite it runs on and from the script that asked for it, as that was then
pub fn lines() {
    let (r, k) = (choice(6), choice(WAYS));
    let who = [0, 1, 1, 0, 1, 1][r];
    let (x, y) = (any_u8() as f64, any_u8() as f64);
    let (body, want) = ways(k, ["Stage", "A"][who], x, y);
    let mut p = role(vec![], vec![entity("Stage"), entity("A")]);
    p.globals = vec![vi("x", AV::Number(0.0)), vi("y", AV::Number(0.0)), vi("c", AV::Number(0.0))];
    p.entities[0].scripts = vec![script(HatKind::LocalMessage { msg_type: None }, vec![say(num(12.0))])];
    p.entities[1].scripts = vec![
        script(HatKind::LocalMessage { msg_type: Some("m".into()) }, vec![say(num(10.0)), mark(num(5.0)), fork(vec![say(num(11.0))]), mark(num(3.0))]),
        script(HatKind::OnClone, vec![say(num(20.0)), own(num(7.0)), mark(num(6.0)), fork(vec![say(num(21.0))])]),
    ];
    let hat = match r { 0 | 1 => HatKind::OnFlag, 2 => HatKind::OnKey { key: "a".into() }, 3 => HatKind::OnKey { key: "any key".into() }, 4 => HatKind::Unknown { name: "ev".into(), fields: vec![] }, _ => HatKind::NetworkMessage { msg_type: "n".into(), fields: vec![] } };
    p.entities[who].scripts.insert(0, script(hat, body));
    let sys = Sys::new();
    sys.marks.set(true);
    gc(|mc| {
        let (code, init, _, _) = match ByteCode::compile(&p) { Ok(x) => x, Err(_) => panic!("compile") };
        let mut p: Project<Cu, Sys> = Project::from_init(mc, &init, Rc::new(code), Settings::default(), sys.clone());
        let g = p.get_global_context();
        for (k, v) in [("x", x), ("y", y)] { g.borrow_mut(mc).globals.define_or_redefine(k, Shared::Unique(nv(v))); }
        match r {
            0 | 1 => p.input(mc, Input::Start),
            2 | 3 => p.input(mc, Input::KeyDown { key: KeyCode::Char('a') }),
            4 => p.input(mc, Input::CustomEvent { name: "ev".into(), args: Default::default(), interrupt: false, max_queue: 1 }),
            _ => sys.inbox.borrow_mut().push_back(IncomingMessage { msg_type: "n".into(), values: Default::default(), reply_key: None }),
        }
        let mut done = false;
        for _ in 0..600 { if let ProjectStep::Idle = p.step(mc) { done = true; break } }
        check!(done);
    });
    cover!();
    told(&sys, &want);
}
/// everything was said by scripts of exactly these ancestries
fn told(sys: &Sys, want: &[(f64, Line)]) {
    let got = sys.lines.borrow();
    check!(got.len() == want.len());
    for (id, line) in want {
        let same = |l: &Vec<Link>| l.len() == line.len() && l.iter().zip(line).all(|(a, b)| a.name == b.0 && a.level == b.1);
        // of those that say it and are in that place, the marks must be right
        let mut of: Vec<&Vec<Link>> = got.iter().filter(|(v, l)| veq(v, &n(*id)) && same(l)).map(|x| &x.1).collect();
        check!(of.len() == 1);
        for (a, b) in of.pop().unwrap().iter().zip(line) { check!(a.own == b.2); check!(a.by == b.3); }
    }
}
/// a script that sends a message to itself, too, is stopped by that; it is still the one that asked
pub fn itself() {
    let (x, y) = (any_u8() as f64, any_u8() as f64);
    let (w1, w2, whom) = (choice(2) == 1, choice(2) == 1, choice(3));
    let mut p = role(vec![], vec![entity("Stage"), entity("A")]);
    p.globals = vec![vi("x", AV::Number(0.0)), vi("y", AV::Number(0.0)), vi("c", AV::Number(0.0))];
    p.entities[0].scripts = vec![
        script(HatKind::OnFlag, vec![mark(var("y")), send("m", w1, None)]),
        script(HatKind::LocalMessage { msg_type: None }, vec![say(num(3.0))]),
    ];
    let to = match whom { 0 => None, 1 => Some(a()), _ => Some(list(vec![a(), ent("Stage")])) };
    p.entities[1].scripts = vec![
        script(HatKind::LocalMessage { msg_type: Some("m".into()) }, vec![say(num(1.0)), iff(e(X::Eq { left: bx(var("c")), right: bx(num(0.0)) }), vec![assign("c", num(1.0)), mark(var("x")), send("m", w2, to), mark(num(77.0))])]),
        script(HatKind::LocalMessage { msg_type: None }, vec![say(num(2.0))]),
    ];
    let sys = Sys::new();
    sys.marks.set(true);
    gc(|mc| {
        let (code, init, _, _) = match ByteCode::compile(&p) { Ok(x) => x, Err(_) => panic!("compile") };
        let mut p: Project<Cu, Sys> = Project::from_init(mc, &init, Rc::new(code), Settings::default(), sys.clone());
        let g = p.get_global_context();
        for (k, v) in [("x", x), ("y", y)] { g.borrow_mut(mc).globals.define_or_redefine(k, Shared::Unique(nv(v))); }
        p.input(mc, Input::Start);
        let mut done = false;
        for _ in 0..600 { if let ProjectStep::Idle = p.step(mc) { done = true; break } }
        check!(done);
    });
    cover!();
    let (root, first) = (("Stage", 0, 0.0, -1.0), ("A", 0, 0.0, y));
    let mut want: Vec<(f64, Line)> = vec![(3.0, vec![root, ("Stage", 0, 0.0, y)]), (1.0, vec![root, first]), (1.0, vec![root, first, ("A", 0, 0.0, x)]), (2.0, vec![root, first, ("A", 0, 0.0, x)])];
    if whom != 1 { want.push((3.0, vec![root, first, ("Stage", 0, 0.0, x)])); }
    told(&sys, &want);
}
/// the sprites of a project get states of their kind with their own settings
pub fn sprites() {
    let count = choice(3);
    let (x, h) = (any_int(), any_u8() as f64);
    let mut p = role(vec![], vec![entity("Stage"), entity("A"), entity("B")]);
    p.entities.truncate(count + 1);
    for (k, en) in p.entities.iter_mut().enumerate() { en.pos = (x + k as f64, -(k as f64)); en.heading = h + k as f64; en.scale = 1.0 + k as f64; en.visible = k != 1; }
    gc(|mc| {
        let (code, init, _, _) = match ByteCode::compile(&p) { Ok(x) => x, Err(_) => panic!("compile") };
        let g = GlobalContext::<Cu, Sys>::from_init(mc, &init, Rc::new(code), Settings::default(), Sys::new());
        check!(g.entities.len() == count + 1);
        for (k, (name, en)) in g.entities.iter().enumerate() {
            let en = en.borrow();
            let (st, want) = (&en.state, ["Stage", "A", "B"][k]);
            check!(name.as_str() == want && en.name.as_str() == want && en.original.is_none());
            check!(st.kind == if k == 0 { 0 } else { 1 });
            check!(st.props.pos.0.get() == x + k as f64);
            check!(st.props.pos.1.get() == norm(-(k as f64)));
            check!(st.props.heading.get() == h + k as f64);
            check!(st.props.size.get() == 100.0 * (1.0 + k as f64));
            check!(st.props.visible == (k != 1));
            cover!();
        }
    });
}
harnesses!(lines, itself, sprites);
