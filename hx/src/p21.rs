//! P21 where an error is reported
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::format; use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use core::cell::RefCell;
use netsblox_vm::process::ErrorSummary;

/// numbers the blocks of a program
struct L { next: RefCell<usize> }
fn name(k: usize) -> String { format!("collab_{}_{}", k, 300 - k as i64 * 7) }
impl L {
    fn n(&self) -> usize { let k = *self.next.borrow(); *self.next.borrow_mut() = k + 1; k }
    fn e(&self, x: X) -> Expr { e_at(x, &name(self.n())) }
    fn s(&self, k: K) -> Stmt { s_at(k, &name(self.n())) }
    /// the item of the list at the index in a variable, which may fail, and its number
    fn item(&self, v: &str) -> (Expr, usize) { let k = self.n(); (e_at(X::ListGet { list: bvar("l"), index: bvar(v) }, &name(k)), k) }
    fn say(&self, x: Expr) -> Stmt { self.s(K::Say { content: bx(x), duration: None }) }
}
/// a failure: which index was bad, or -1 the program's own mistake, and where it is (from the outermost call to the failing block)
type Fail = (usize, Vec<usize>);
const KINDS: usize = 12;
/// a program with three blocks that fail when their index is out of range, in order of evaluation
fn program(k: usize, c: &L) -> (Vec<Stmt>, Vec<Function>, Vec<Fail>) {
    let (x, nx) = c.item("a"); let (y, ny) = c.item("b"); let (z, nz) = c.item("c");
    let at = |v: Vec<Vec<usize>>| v.into_iter().enumerate().collect::<Vec<Fail>>();
    let plain = at(vec![vec![nx], vec![ny], vec![nz]]);
    let call_at = |f: &str, args: Vec<Expr>| { let n = c.n(); (e_at(X::CallFn { function: fref(f), args, upvars: vec![] }, &name(n)), n) };
    match k {
        0 => (vec![c.say(x), c.say(y), c.say(z)], vec![], plain),
        1 => (vec![c.say(c.e(X::MakeList { values: vec![x, c.e(X::Neg { value: bx(y) }), z] }))], vec![], plain),
        2 => (vec![c.s(K::IfElse { condition: bx(c.e(X::Less { left: bx(x), right: bx(y) })), then: vec![c.say(num(1.0))], otherwise: vec![c.say(num(2.0))] }), c.say(z)], vec![], plain),
        3 => (vec![c.s(K::Repeat { times: bx(num(2.0)), stmts: vec![c.say(x), c.s(K::Warp { stmts: vec![c.say(y)] })] }), c.say(z)], vec![], plain),
        4 => (vec![c.s(K::TryCatch { code: vec![c.s(K::Throw { error: bx(x) })], var: lv("er"), handler: vec![c.say(y)] }), c.say(z)], vec![], at(vec![vec![], vec![ny], vec![nz]])),
        5 => { let (g, ng) = call_at("g", vec![x]); (vec![c.say(g), c.say(z)], vec![Function { upvars: vec![], ..func("g", &["p"], vec![c.say(var("p")), c.s(K::Return { value: bx(y_local(c, ny)) })]) }], at(vec![vec![nx], vec![ng, ny], vec![nz]])) }
        6 => {
            let (h, nh) = call_at("h", vec![]); let (g, ng) = call_at("g", vec![x]);
            (vec![c.say(g)], vec![func("g", &["p"], vec![c.say(h), c.s(K::Return { value: bx(z) })]), func("h", &[], vec![c.s(K::Return { value: bx(y) })])], at(vec![vec![nx], vec![ng, nh, ny], vec![ng, nz]]))
        }
        7 => {
            let nc = c.n();
            let f = clos(&["p"], &[], vec![c.say(y), c.s(K::Return { value: bx(z) })]);
            (vec![c.say(e_at(X::CallClosure { new_entity: None, closure: bx(f), args: vec![x] }, &name(nc)))], vec![], at(vec![vec![nx], vec![nc, ny], vec![nc, nz]]))
        }
        8 => {
            let nm = c.n();
            let f = clos(&["p"], &[], vec![c.s(K::Return { value: bx(y) })]);
            (vec![c.say(e_at(X::Map { f: bx(f), list: bx(c.e(X::MakeList { values: vec![x, num(5.0)] })) }, &name(nm))), c.say(z)], vec![], at(vec![vec![nx], vec![nm, ny], vec![nz]]))
        }
        9 => (vec![c.s(K::ForLoop { var: lv("i"), start: bx(x), stop: bx(y), stmts: vec![c.say(var("i"))] }), c.s(K::UntilLoop { condition: bx(c.e(X::Less { left: bx(num(0.0)), right: bx(z) })), stmts: vec![] })], vec![], plain),
        10 => (vec![c.s(K::ForeachLoop { var: lv("i"), items: bx(c.e(X::MakeList { values: vec![x] })), stmts: vec![c.say(y)] }), c.s(K::If { condition: bx(c.e(X::And { left: bx(boolean(true)), right: bx(c.e(X::Eq { left: bx(z), right: bx(num(1.0)) })) })), then: vec![] })], vec![], plain),
        _ => (vec![c.s(K::ListAssign { list: bvar("l"), index: bx(num(1.0)), value: bx(x) }), c.s(K::ListAssign { list: bvar("l"), index: bx(num(2.0)), value: bx(y) }), c.s(K::Assign { var: lv("q"), value: bx(z) })], vec![], plain),
    }
}
fn y_local(_: &L, ny: usize) -> Expr { e_at(X::ListGet { list: bvar("l"), index: bvar("b") }, &name(ny)) }
fn good(i: f64) -> bool { i == 1.0 || i == 2.0 || i == 3.0 }
/// an error is reported at the block that failed and at the calls it was under
pub fn places() {
    let k = choice(KINDS);
    let before = choice(4) * 9;
    let (b, c) = (any_int(), any_int());
    let a = if k == 4 { [1.0, 2.0, 3.0][choice(3)] } else { any_int() }; // the text of a caught failure would spell the index
    at(k, before, (a, b, c), false);
}
/// the summary of an error (which spells every number) lists the same places
pub fn listed() {
    let k = choice(KINDS);
    let mut of = || [1.0, 3.0, 0.0][choice(3)];
    let (a, b, c) = (of(), of(), of());
    if k == 4 && !good(a) { return; }
    at(k, 9, (a, b, c), true);
}
fn at(k: usize, before: usize, (a, b, c): (f64, f64, f64), summary: bool) {
    let lx = L { next: RefCell::new(1) };
    let (mut body, funcs, fails) = program(k, &lx);
    for _ in 0..before { body.insert(0, lx.s(K::Assign { var: lv("q"), value: bx(num(1.0)) })); }
    let mut fs = vec![func("main", &[], body)]; fs.extend(funcs);
    let mut r = role(fs, vec![entity("Stage")]);
    r.globals = vec![vi("l", AV::List(vec![AV::Number(1.0), AV::Number(2.0), AV::Number(3.0)], None)), vi("q", AV::Number(0.0)), vi("a", AV::Number(a)), vi("b", AV::Number(b)), vi("c", AV::Number(c))];
    // the first of the three that is out of range fails (a thrown text is caught in kind 4)
    let bad = [!good(a), !good(b), !good(c)];
    let sys = Sys::new();
    gc(|mc| {
        let (code, init, locs, info) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => { check!(false); return } };
        let pos = info.funcs[0].1;
        let glob = GlobalContext::from_init(mc, &init, Rc::new(code), Settings::default(), sys.clone());
        let en = *glob.entities.iter().next().unwrap().1;
        let g = Gc::new(mc, RefLock::new(glob));
        let mut p = Process::new(ProcContext { global_context: g, entity: en, locals: SymbolTable::default(), state: PSt::new(), start_pos: pos, barrier: None, reply_key: None, local_message: None });
        let mut err = None;
        for _ in 0..400 { match p.step(mc) { Ok(ProcessStep::Terminate { .. }) => break, Ok(_) => (), Err(x) => { err = Some(x); break } } }
        cover!();
        let first = if k == 4 { if bad[1] { Some(1) } else if bad[2] { Some(2) } else { None } } else { bad.iter().position(|x| *x) };
        match (first, err) {
            (None, None) => (),
            (Some(i), Some(x)) => {
                let trace: Vec<String> = { let mut v: Vec<String> = p.get_call_stack()[1..].iter().filter_map(|f| locs.lookup(f.called_from).map(|x| x.as_str().into())).collect(); v.extend(locs.lookup(x.pos).map(|x| x.as_str().into())); v };
                let want: Vec<String> = fails[i].1.iter().map(|n| name(*n)).collect();
                check!(trace == want);
                if !summary { return }
                let sm = ErrorSummary::extract(&x, &p, &locs);
                check!(sm.trace.len() == want.len() && sm.trace.iter().zip(&want).all(|(x, y)| x.location.as_str() == y));
            }
            _ => check!(false),
        }
    });
}
/// a summary shows the error, the entity, its fields, the globals, and the calls with their locals
pub fn summaries() {
    let k = choice(4);
    let stmts = vec![locals(&["v"]), assign("v", txt("vee")), s_at(K::Say { content: bx(e_at(X::CallFn { function: fref("f"), args: vec![txt("arg")], upvars: vec![] }, "c_10")), duration: None }, "c_11")];
    let inner = match k {
        0 => s_at(K::Throw { error: bx(txt("boom")) }, "c_20"),
        1 => s_at(K::Assign { var: lv("zz"), value: bx(num(1.0)) }, "c_20"),
        2 => s_at(K::CallClosure { new_entity: Some(bx(ent("Other"))), closure: bx(clos(&["w"], &[], vec![s_at(K::Throw { error: bx(txt("boom")) }, "c_30")])), args: vec![txt("arg2")] }, "c_20"),
        _ => s_at(K::Throw { error: bx(list(vec![txt("x")])) }, "c_20"),
    };
    let mut r = role(vec![func("main", &[], stmts), func("f", &["p"], vec![inner])], vec![entity("Stage"), entity("Other")]);
    r.globals = vec![vi("g2", AV::String("two".into())), vi("g1", AV::Bool(true))];
    r.entities[0].fields = vec![vi("f1", AV::String("field".into()))];
    r.entities[1].fields = vec![vi("o1", AV::String("other".into()))];
    let sys = Sys::new();
    gc(|mc| {
        let (code, init, locs, info) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => { check!(false); return } };
        let pos = info.funcs[0].1;
        let glob = GlobalContext::from_init(mc, &init, Rc::new(code), Settings::default(), sys.clone());
        let en = *glob.entities.iter().find(|x| x.0.as_str() == "Stage").unwrap().1;
        let g = Gc::new(mc, RefLock::new(glob));
        let mut p = Process::new(ProcContext { global_context: g, entity: en, locals: SymbolTable::default(), state: PSt::new(), start_pos: pos, barrier: None, reply_key: None, local_message: None });
        let mut err = None;
        for _ in 0..100 { match p.step(mc) { Ok(ProcessStep::Terminate { .. }) => break, Ok(_) => (), Err(x) => { err = Some(x); break } } }
        let Some(err) = err else { check!(false); return };
        cover!();
        let sm = ErrorSummary::extract(&err, &p, &locs);
        check!(sm.entity.as_str() == if k == 2 { "Other" } else { "Stage" });
        let names = |v: &[netsblox_vm::process::VarEntry]| v.iter().map(|x| String::from(x.name.as_str())).collect::<Vec<_>>();
        let has = |v: &[netsblox_vm::process::VarEntry], n: &str, t: &str| v.iter().any(|x| x.name.as_str() == n && x.value.contains(t));
        check!(sm.globals.len() == 2 && has(&sm.globals, "g1", "true") && has(&sm.globals, "g2", "two"));
        check!(sm.fields.len() == 1 && if k == 2 { has(&sm.fields, "o1", "other") } else { has(&sm.fields, "f1", "field") });
        check!(sm.trace.len() == if k == 2 { 3 } else { 2 });
        check!(sm.trace[0].location.as_str() == "c_10" && names(&sm.trace[0].locals) == ["v"] && has(&sm.trace[0].locals, "v", "vee"));
        check!(sm.trace[1].location.as_str() == "c_20" && names(&sm.trace[1].locals) == ["p"] && has(&sm.trace[1].locals, "p", "arg"));
        if k == 2 { check!(sm.trace[2].location.as_str() == "c_30" && names(&sm.trace[2].locals) == ["w"] && has(&sm.trace[2].locals, "w", "arg2")); }
        if k != 1 && k != 3 { check!(sm.cause.contains("boom")); }
        if k == 1 { check!(sm.cause.contains("zz")); }
    });
}
/// a location text: its parts and whether its numbers are in normal form; one digit of the first number is arbitrary
fn text(pre: &str, sep: &str, suf: &str, nums: usize, arb: bool) -> (String, bool) {
    const T: [&str; 4] = ["0", "-12", "05", "41"];
    let mut o = String::from(pre);
    let mut normal = true;
    for i in 0..nums {
        if i > 0 { o.push_str(sep); }
        if i == 0 && arb {
            let k = choice(4);
            let d = any_u8();
            assume((d >= b'0') & (d <= b'9'));
            o.push_str(["", "-", "1", "-2"][k]);
            o.push(d as char);
            normal &= k != 1 || d != b'0';
        } else { let k = choice(4); o.push_str(T[k]); normal &= k != 2; }
    }
    o.push_str(suf);
    (o, normal)
}
/// runs two failing blocks one at a time and says where they were reported
fn reported(x: &str, y: &str) -> Option<(String, String)> {
    let f = |n: &str, at: &str| func(n, &[], vec![s_at(K::Throw { error: bx(txt("no")) }, at)]);
    let r = role(vec![f("f", x), f("g", y)], vec![entity("Stage")]);
    let mut out = None;
    gc(|mc| {
        let (code, init, locs, info) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => return };
        let code = Rc::new(code);
        let sys = Sys::new();
        let mut got = vec![];
        for i in 0..2 {
            let glob = GlobalContext::from_init(mc, &init, code.clone(), Settings::default(), sys.clone());
            let en = *glob.entities.iter().next().unwrap().1;
            let g = Gc::new(mc, RefLock::new(glob));
            let mut p = Process::new(ProcContext { global_context: g, entity: en, locals: SymbolTable::default(), state: PSt::new(), start_pos: info.funcs[i].1, barrier: None, reply_key: None, local_message: None });
            loop { match p.step(mc) { Ok(_) => (), Err(x) => { got.push(locs.lookup(x.pos).map(|x| String::from(x.as_str())).unwrap_or_default()); break } } }
        }
        let b = got.pop().unwrap();
        out = Some((got.pop().unwrap(), b));
    });
    out
}
/// locations come back exactly as they were given, for every way of writing them; others are refused
pub fn formats() {
    let pre = ["collab_", "", "é "][choice(3)];
    let suf = ["", "_x"][choice(2)];
    let (n1, n2) = [(1, 1), (2, 1), (1, 2), (2, 2)][choice(4)];
    let odd = choice(4);
    let arb = odd == 0 && n1 + n2 == 2;
    let (x, nx) = text(pre, "_", suf, n1, arb);
    let (y, ny) = text(if odd == 1 { "coLLab_" } else { pre }, if odd == 2 { "," } else { "_" }, if odd == 3 { "_y" } else { suf }, n2, false);
    cover!();
    match reported(&x, &y) {
        Some((a, b)) => { check!(a == x); check!(b == y) }
        None => check!(odd != 0 || !(nx & ny)),
    }
}
/// the same for extreme numbers and texts without numbers
pub fn extremes() {
    const T: [&str; 9] = ["c_9223372036854775807", "c_-9223372036854775808", "c_0", "c_9223372036854775808", "c_-", "c_1-", "c_", "c_-1", "c_4611686018427387904"];
    let (x, y) = (T[choice(9)], T[choice(9)]);
    cover!();
    if let Some((a, b)) = reported(x, y) { check!(a == x); check!(b == y) }
}
harnesses!(places, listed, summaries, formats, extremes);
