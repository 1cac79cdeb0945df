//! P31 costumes and sounds
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;

/// the images and sounds there are: what they are called (two of each are called alike); the last one belongs to no list
const CALLED: [&str; 4] = ["one", "two", "one", "two"];
const A_LIST: [(&str, usize); 3] = [("c0", 0), ("c1", 1), ("c2", 0)];
const B_LIST: [(&str, usize); 2] = [("c1", 2), ("x9", 1)];
type Image_ = Rc<(Vec<u8>, Option<(f64, f64)>, netsblox_vm::compact_str::CompactString)>;
type Audio_ = Rc<(Vec<u8>, netsblox_vm::compact_str::CompactString)>;
#[derive(Clone)]
struct Ent { list: Vec<(&'static str, usize)>, cur: Option<usize> }
/// what a slot for a costume or a sound is given
#[derive(Clone)]
enum W { Name, Item, Own, Cur, Nothing, Num, List, Other }
fn slot(w: &W, sound: bool) -> Expr {
    match w {
        W::Name => var("name"),
        W::Item => get(e(if sound { X::SoundList } else { X::CostumeList }), var("at")),
        W::Own => e(X::Variable { var: gv(if sound { "snd" } else { "img" }) }),
        W::Cur => e(X::Costume),
        W::Nothing => txt(""),
        W::Num => num(1.0),
        W::List => e(if sound { X::SoundList } else { X::CostumeList }),
        W::Other => e(X::Variable { var: gv(if sound { "img" } else { "snd" }) }),
    }
}
const SLOTS: [W; 8] = [W::Name, W::Item, W::Own, W::Cur, W::Nothing, W::Num, W::List, W::Other];
/// what it stands for: Err for an error
fn stands(w: &W, ent: &Ent, name: &str, at: usize) -> Result<Option<usize>, ()> {
    match w {
        W::Name => ent.list.iter().find(|x| x.0 == name).map(|x| Some(x.1)).ok_or(()),
        W::Item => if at >= 1 && at <= ent.list.len() { Ok(Some(ent.list[at - 1].1)) } else { Err(()) },
        W::Own => Ok(Some(3)),
        W::Cur => Ok(ent.cur),
        W::Nothing => Ok(None),
        W::Num | W::List | W::Other => Err(()),
    }
}
fn image(k: usize, all: &[Image_]) -> AV { AV::Image(all[k].clone()) }
fn world(a: &Ent, b: &Ent, sound: bool, stmts: Vec<Stmt>) -> Role {
    let images: Vec<Image_> = (0..4).map(|k| Rc::new((vec![k as u8], None, CALLED[k].into()))).collect();
    let sounds: Vec<Audio_> = (0..4).map(|k| Rc::new((vec![k as u8], CALLED[k].into()))).collect();
    let mut r = role(vec![func("main", &["name", "at", "out"], stmts)], vec![]);
    r.globals = vec![vi("img", image(3, &images)), vi("snd", AV::Audio(sounds[3].clone()))];
    for (nm, x) in [("A", a), ("B", b)] {
        let mut en = entity(nm);
        if sound { en.sounds = x.list.iter().map(|(k, i)| vi(k, AV::Audio(sounds[*i].clone()))).collect(); }
        else { en.costumes = x.list.iter().map(|(k, i)| vi(k, image(*i, &images))).collect(); }
        en.active_costume = x.cur.map(|i| x.list.iter().position(|y| y.1 == i).unwrap());
        r.entities.push(en);
    }
    r
}
/// which of the images or sounds a value is
fn which(v: &Value<'_, Cu, Sys>) -> V {
    match v {
        Value::Image(x) => V::L(vec![V::N(x.content[0] as f64), t(&x.name)]),
        Value::Audio(x) => V::L(vec![V::N(x.content[0] as f64), t(&x.name)]),
        Value::List(x) => V::L(x.borrow().iter().map(which).collect()),
        x => snap(x),
    }
}
fn thing(k: usize) -> V { V::L(vec![V::N(k as f64), t(CALLED[k])]) }
fn run<'gc>(mc: &Mutation<'gc>, r: &Role, sys: &Rc<Sys>, args: Args<'gc>) -> Option<Value<'gc, Cu, Sys>> {
    let mut run = start(mc, r, sys, Settings::default(), args);
    for _ in 0..3000 {
        match run.p.step(mc) {
            Ok(ProcessStep::Normal | ProcessStep::Yield | ProcessStep::CreatedClone { .. }) => (),
            Ok(ProcessStep::Terminate { result }) => return Some(result),
            Ok(_) | Err(_) => return None,
        }
    }
    None
}
#[derive(Clone)]
enum Op { Set(W), Next, Name(W), Clear }
const LEN: usize = if cfg!(feature = "deep") { 3 } else { 2 };
/// up to three characters; one is arbitrary
fn any_name() -> String { let k = any_u8(); assume(k < 0x80); let (x, y) = [("c", ""), ("x", ""), ("c1", ""), ("", "c1")][choice(4)]; let mut s = String::from(x); s.push(k as char); s.push_str(y); s }
/// after any sequence of switches, the costume, its number and the list are as they must be, and the system was told of each change
pub fn costumes() {
    let ctx = choice(3);
    let first = choice(10);
    let len = if ctx == 1 { 3 } else { choice(4) };
    let ops: Vec<Op> = (0..LEN).map(|i| { let k = if i == 0 { first } else { choice(10) }; match k { 8 => Op::Next, 9 => if choice(2) == 0 { Op::Clear } else { Op::Name([W::Name, W::Own, W::Cur, W::Num][choice(4)].clone()) }, k => Op::Set(SLOTS[k].clone()) } }).collect();
    let used = |f: fn(&W) -> bool| ops.iter().any(|x| match x { Op::Set(w) | Op::Name(w) => f(w), _ => false });
    let name = if used(|w| matches!(w, W::Name)) { any_name() } else { String::new() };
    let at = (any_u8() >> 5) as usize;
    let list = A_LIST[..len].to_vec();
    let cur = if len == 0 { None } else { [None, Some(list[len - 1].1)][choice(2)] };
    let a = Ent { list, cur };
    let b = Ent { list: B_LIST.to_vec(), cur: Some(1) };
    // the blocks
    let look = |to: &mut Vec<Stmt>| { for x in [X::Costume, X::CostumeNumber, X::CostumeList] { to.push(push("out", e(x))) } };
    let mut body = vec![];
    for op in &ops {
        let act = match op { Op::Set(w) => s(K::SetCostume { costume: bx(slot(w, false)) }), Op::Next => s(K::NextCostume), Op::Name(w) => push("out", e(X::CostumeName { costume: bx(slot(w, false)) })), Op::Clear => s(K::ListRemoveAll { list: be(X::CostumeList) }) };
        body.push(tryc(vec![act], "err", vec![push("out", txt("err"))]));
        look(&mut body);
    }
    let caps = ["name", "at", "out"];
    let mut prog = match ctx { 0 => body, 1 => vec![e_stmt(callc_on(ent("B"), clos(&[], &caps, body), vec![]))], _ => vec![e_stmt(callc_on(e(X::Clone { target: be(X::This) }), clos(&[], &caps, body), vec![]))] };
    look(&mut prog);
    prog.push(ret(var("out")));
    let r = world(&a, &b, false, prog);
    // what is to be seen
    let mut want = vec![];
    let mut log = vec![];
    let seen = |x: &Ent, want: &mut Vec<V>| {
        want.push(x.cur.map(thing).unwrap_or(t("")));
        want.push(n(x.cur.and_then(|k| x.list.iter().position(|y| y.1 == k)).map(|i| i + 1).unwrap_or(0) as f64));
        want.push(V::L(x.list.iter().map(|y| thing(y.1)).collect()));
    };
    let mut x = if ctx == 1 { b.clone() } else { a.clone() };
    for op in &ops {
        let to = match op {
            Op::Set(w) => stands(w, &x, &name, at),
            Op::Next => Ok(x.cur.map(|k| match x.list.iter().position(|y| y.1 == k) { Some(i) => x.list[(i + 1) % x.list.len()].1, None => k })),
            Op::Name(w) => { match stands(w, &x, &name, at) { Ok(k) => want.push(t(k.map(|k| CALLED[k]).unwrap_or(""))), Err(()) => want.push(t("err")) } Ok(x.cur) }
            Op::Clear => Ok(x.cur),
        };
        match to {
            Ok(k) => if k != x.cur { x.cur = k; cover!(); log.push(Ev::SetCostume(k.map(|k| String::from(CALLED[k])))); }
            Err(()) => { cover!(); want.push(t("err")) }
        }
        seen(&x, &mut want);
    }
    seen(if ctx == 0 { &x } else { &a }, &mut want);
    gc(|mc| {
        let sys = Sys::new();
        let args = vec![("name", tv(&name)), ("at", nv(at as f64)), ("out", lval(mc, vec![]))];
        let got = run(mc, &r, &sys, args);
        check!(got.is_some());
        check!(which(&got.unwrap()) == V::L(want.clone()));
        check!(*sys.log.borrow() == log);
        let me = ["A", "B", "A"][ctx];
        check!(sys.who.borrow().iter().all(|x| x == me));
    });
}
fn e_stmt(x: Expr) -> Stmt { match x.kind { X::CallClosure { new_entity, closure, args } => s(K::CallClosure { new_entity, closure, args }), _ => panic!() } }
/// exactly the sound that is meant is played, or none
pub fn sounds() {
    let ctx = choice(2);
    let which_slot = choice(8);
    let len = choice(4);
    let blocking = choice(2) == 1;
    let name = any_name();
    let at = (any_u8() >> 5) as usize;
    let a = Ent { list: A_LIST[..len].to_vec(), cur: None };
    let b = Ent { list: B_LIST.to_vec(), cur: None };
    let w = if let W::Cur = SLOTS[which_slot] { W::Nothing } else { SLOTS[which_slot].clone() };
    let mut body = vec![
        tryc(vec![s(K::PlaySound { sound: bx(slot(&w, true)), blocking })], "err", vec![push("out", txt("err"))]),
        tryc(vec![push("out", e(X::SoundName { sound: bx(slot(&w, true)) }))], "err", vec![push("out", txt("err"))]),
        s(K::ListRemoveAll { list: be(X::SoundList) }),
        push("out", e(X::SoundList)),
        s(K::StopSounds),
    ];
    if ctx == 1 { body = vec![e_stmt(callc_on(ent("B"), clos(&[], &["name", "at", "out"], body), vec![]))] }
    body.push(ret(var("out")));
    let r = world(&a, &b, true, body);
    let x = if ctx == 1 { &b } else { &a };
    let mut want = vec![];
    let mut log = vec![];
    let it = stands(&w, x, &name, at);
    match it { Ok(Some(k)) => { cover!(); log.push(Ev::PlaySound(CALLED[k].into(), blocking)) } Ok(None) => (),
        Err(()) => { cover!(); want.push(t("err")) } }
    want.push(match it { Ok(Some(k)) => t(CALLED[k]), _ => t("err") });
    want.push(V::L(x.list.iter().map(|y| thing(y.1)).collect()));
    log.push(Ev::StopSounds);
    gc(|mc| {
        let sys = Sys::new();
        let args = vec![("name", tv(&name)), ("at", nv(at as f64)), ("out", lval(mc, vec![]))];
        let got = run(mc, &r, &sys, args);
        check!(got.is_some());
        check!(which(&got.unwrap()) == V::L(want.clone()));
        check!(*sys.log.borrow() == log);
        check!(sys.who.borrow().iter().all(|x| x == ["A", "B"][ctx]));
    });
}
/// a value is taken for an image, a sound, a list, code, a sprite or a truth value only if it is one
pub fn kinds() {
    let k = choice(8);
    let (v, b) = (any_int(), any_bool());
    gc(|mc| {
        let sys = Sys::new();
        let r = main_role(&[], vec![ret(clos(&[], &[], vec![]))]);
        let code = match start(mc, &r, &sys, Settings::default(), vec![]).to_end(mc, 50) { End::Ok(x) => x, _ => { check!(false); return } };
        let me = match start(mc, &main_role(&[], vec![ret(e(X::This))]), &sys, Settings::default(), vec![]).to_end(mc, 50) { End::Ok(x) => x, _ => { check!(false); return } };
        let image = Rc::new(Image { content: vec![1], center: None, name: "i".into() });
        let sound = Rc::new(Audio { content: vec![2], name: "s".into() });
        let x: Value<'_, Cu, Sys> = match k { 0 => nv(v), 1 => tv("7"), 2 => Value::Bool(b), 3 => lval(mc, vec![nv(v)]), 4 => Value::Image(image.clone()), 5 => Value::Audio(sound.clone()), 6 => code, _ => me };
        cover!();
        check!(match x.as_image() { Ok(y) => k == 4 && Rc::ptr_eq(y, &image), Err(er) => k != 4 && er.expected == Type::Image && er.got == x.get_type() });
        check!(match x.as_audio() { Ok(y) => k == 5 && Rc::ptr_eq(y, &sound), Err(er) => k != 5 && er.expected == Type::Audio && er.got == x.get_type() });
        check!(match x.as_list() { Ok(y) => k == 3 && y.borrow().len() == 1, Err(er) => k != 3 && er.expected == Type::List && er.got == x.get_type() });
        check!(match x.as_closure() { Ok(_) => k == 6, Err(er) => k != 6 && er.expected == Type::Closure && er.got == x.get_type() });
        check!(match x.as_entity() { Ok(y) => k == 7 && y.borrow().name.as_str() == "Stage", Err(er) => k != 7 && er.expected == Type::Entity && er.got == x.get_type() });
        check!(match x.as_bool() { Ok(y) => k == 2 && y == b, Err(er) => k != 2 && er.expected == Type::Bool && er.got == x.get_type() });
        check!(match x.as_number() { Ok(y) => k == 0 && y.get() == v || k == 1 && y.get() == 7.0, Err(er) => k > 1 && er.expected == Type::Number && er.got == x.get_type() });
    });
}
harnesses!(costumes, sounds, kinds);
