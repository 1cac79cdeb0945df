//! P33 no block and no value crashes the machine
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::rc::Rc; use alloc::vec; use alloc::vec::Vec;

const ONE: usize = 48;
fn one(k: usize, a: Expr) -> Expr {
    let value = bx(a);
    e(match k {
        0 => X::Neg { value }, 1 => X::Abs { value }, 2 => X::Sqrt { value }, 3 => X::Sin { value }, 4 => X::Asin { value }, 5 => X::Round { value }, 6 => X::Floor { value }, 7 => X::Not { value },
        8 => X::StrLen { value }, 9 => X::UnicodeToChar { value }, 10 => X::CharToUnicode { value }, 11 => X::ListGetLast { list: value }, 12 => X::ListGetRandom { list: value }, 13 => X::ListLen { value },
        14 => X::ListDims { value }, 15 => X::ListRank { value }, 16 => X::ListRev { value }, 17 => X::ListFlatten { value }, 18 => X::ListIsEmpty { value }, 19 => X::ListCdr { value }, 20 => X::ListColumns { value },
        21 => X::ListLines { value }, 22 => X::ListJson { value }, 23 => X::ListCsv { value }, 24 => X::StrGetLast { string: value }, 25 => X::StrGetRandom { string: value }, 26 => X::Clone { target: value },
        27 => X::CostumeName { costume: value }, 28 => X::SoundName { sound: value }, 29 => X::Add { values: value }, 30 => X::Mul { values: value }, 31 => X::Min { values: value }, 32 => X::Max { values: value },
        33 => X::StrCat { values: value }, 34 => X::ListCat { lists: value }, 35 => X::CopyList { list: value }, 36 => X::ListCombinations { sources: value },
        37 => X::TextSplit { text: value, mode: ast::TextSplitMode::Letter }, 38 => X::TextSplit { text: value, mode: ast::TextSplitMode::Word }, 39 => X::TextSplit { text: value, mode: ast::TextSplitMode::LF },
        40 => X::TextSplit { text: value, mode: ast::TextSplitMode::Csv }, 41 => X::TextSplit { text: value, mode: ast::TextSplitMode::Json },
        42 => X::TypeQuery { value, ty: ast::ValueType::List }, 43 => X::Conditional { condition: value, then: be(X::This), otherwise: bx(num(2.0)) },
        44 => X::CallClosure { new_entity: None, closure: value, args: vec![] }, 45 => X::UnknownBlock { name: "x".into(), args: vec![*value] },
        46 => X::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![txt("f"), *value] },
        _ => X::CallRpc { host: None, service: "S".into(), rpc: "r".into(), args: vec![("x".into(), *value)] },
    })
}
const TWO: usize = 34;
fn two(k: usize, a: Expr, b: Expr) -> Expr {
    let (left, right) = (bx(a), bx(b));
    e(match k {
        0 => X::Sub { left, right }, 1 => X::Div { left, right }, 2 => X::Mod { left, right }, 3 => X::Pow { base: left, power: right }, 4 => X::Log { base: left, value: right }, 5 => X::Atan2 { y: left, x: right },
        6 => X::Less { left, right }, 7 => X::GreaterEq { left, right }, 8 => X::Eq { left, right }, 9 => X::Neq { left, right }, 10 => X::Identical { left, right },
        11 => X::ListGet { list: left, index: right }, 12 => X::ListCons { item: left, list: right }, 13 => X::ListFind { list: left, value: right }, 14 => X::ListContains { list: left, value: right },
        15 => X::Range { start: left, stop: right }, 16 => X::Random { a: left, b: right }, 17 => X::StrGet { string: left, index: right }, 18 => X::And { left, right }, 19 => X::Or { left, right },
        20 => X::Add { values: bx(list(vec![*left, *right])) }, 21 => X::StrCat { values: bx(list(vec![*left, *right])) }, 22 => X::ListCat { lists: bx(list(vec![*left, *right])) },
        23 => X::Min { values: bx(list(vec![*left, *right])) }, 24 => X::ListReshape { value: left, dims: right }, 25 => X::ListReshape { value: left, dims: bx(list(vec![*right])) },
        26 => X::ListCombinations { sources: bx(list(vec![*left, *right])) }, 27 => X::TextSplit { text: left, mode: ast::TextSplitMode::Custom(right) },
        28 => X::Map { f: left, list: right }, 29 => X::Keep { f: left, list: right }, 30 => X::FindFirst { f: left, list: right }, 31 => X::Combine { f: left, list: right },
        32 => X::CallClosure { new_entity: None, closure: left, args: vec![*right] }, _ => X::CallClosure { new_entity: Some(left), closure: right, args: vec![] },
    })
}
const ACTS: usize = 47;
fn act(k: usize, a: Expr, b: Expr, c: Expr) -> Stmt {
    let (value, o) = (bx(a), bx(b));
    s(match k {
        0 => K::Assign { var: lv("x"), value }, 1 => K::AddAssign { var: lv("a"), value: o }, 2 => K::ListInsert { list: value, index: o, value: bx(c) }, 3 => K::ListInsertLast { list: value, value: o },
        4 => K::ListInsertRandom { list: value, value: o }, 5 => K::ListRemove { list: value, index: o }, 6 => K::ListRemoveLast { list: value }, 7 => K::ListRemoveAll { list: value },
        8 => K::ListAssign { list: value, index: o, value: bx(c) }, 9 => K::ListAssignLast { list: value, value: o }, 10 => K::ListAssignRandom { list: value, value: o }, 11 => K::Throw { error: value }, 12 => K::Ask { prompt: value },
        13 => K::SendNetworkReply { value }, 14 => K::SetSize { value }, 15 => K::ChangeSize { delta: value }, 16 => K::SetEffect { kind: ast::EffectKind::Color, value }, 17 => K::Forward { distance: value },
        18 => K::SetPenAttr { attr: ast::PenAttribute::Hue, value }, 19 => K::GotoXY { x: value, y: o }, 20 => K::SetX { value }, 21 => K::TurnRight { angle: value }, 22 => K::TurnLeft { angle: value }, 23 => K::SetHeading { value },
        24 => K::PointTowards { target: value }, 25 => K::PointTowardsXY { x: value, y: o }, 26 => K::Goto { target: value }, 27 => K::SetCostume { costume: value }, 28 => K::PlaySound { sound: value, blocking: true },
        29 => K::PlayNotes { notes: value, beats: o, blocking: true }, 30 => K::Rest { beats: value }, 31 => K::Say { content: value, duration: Some(o) }, 32 => K::Think { content: value, duration: None },
        33 => K::CallClosure { new_entity: None, closure: value, args: vec![*o] }, 34 => K::ForkClosure { closure: value, args: vec![*o] }, 35 => K::Repeat { times: value, stmts: vec![] }, 36 => K::ForLoop { var: lv("x"), start: value, stop: o, stmts: vec![] },
        37 => K::ForeachLoop { var: lv("x"), items: value, stmts: vec![] }, 38 => K::If { condition: value, then: vec![] }, 39 => K::SendLocalMessage { target: None, msg_type: value, wait: false }, 40 => K::SendLocalMessage { target: Some(value), msg_type: o, wait: false },
        41 => K::SendNetworkMessage { target: value, msg_type: "m".into(), values: vec![("v".into(), *o)] }, 42 => K::SetPenSize { value }, 43 => K::Sleep { seconds: value }, 44 => K::CallRpc { host: None, service: "S".into(), rpc: "r".into(), args: vec![("x".into(), *value)] },
        45 => K::UnknownBlock { name: "x".into(), args: vec![*value, *o] }, _ => K::ResetTimer,
    })
}
/// a value of every kind, as an expression; numbers and the letter of a text are arbitrary within their bounds
const KINDS: usize = 14;
fn kind(k: usize, nm: usize) -> Expr {
    let v = || var(["n1", "n2", "n3"][nm]);
    match k {
        0 => v(), 1 => var(["t1", "t2", "t3"][nm]), 2 => txt(""), 3 => boolean(true), 4 => list(vec![]), 5 => list(vec![v(), txt("x")]), 6 => list(vec![list(vec![num(1.0), v()]), list(vec![]), num(3.0)]),
        7 => var("cyc"), 8 => clos(&["p"], &[], vec![ret(var("p"))]), 9 => e(X::This), 10 => e(X::Variable { var: gv("img") }), 11 => e(X::Variable { var: gv("snd") }), 12 => var("nat"), _ => num(1e19),
    }
}
/// runs the blocks among waiting operands, with a handler; gives what they gave, or that they failed
fn survive(r: &Role, a: f64, b: f64, ta: u8, tb: &str) {
    gc(|mc| {
        let sys = Sys::new();
        let st = |k: u8| { let mut x = alloc::string::String::new(); x.push((k & 127) as char); x };
        let cyc = lval(mc, vec![nv(1.0)]);
        if let Value::List(x) = &cyc { x.borrow_mut(mc).push_back(cyc.clone()); }
        let args = vec![("n1", nv(a)), ("n2", nv(b)), ("n3", nv(1.0)), ("t1", tv(&st(ta))), ("t2", tv(tb)), ("t3", tv("z")), ("cyc", cyc), ("nat", Value::Native(Rc::new(Nat(0))))];
        let mut run = start(mc, r, &sys, Settings::default(), args);
        for _ in 0..600 {
            match run.p.step(mc) {
                Ok(ProcessStep::Terminate { result }) => {
                    cover!();
                    match snap(&result) { V::L(x) => check!(x.len() == 3 && x[0] == n(5.0) && x[2] == n(6.0)), _ => check!(false) }
                    check!(!run.p.is_running());
                    return;
                }
                Ok(_) => sys.now.set(sys.now.get() + 5000),
                Err(_) => check!(false),
            }
        }
        check!(false);
    });
}
fn few() -> f64 { (any_u8() >> 5) as f64 / 2.0 - 1.0 }
/// the second value of a kind is taken from a few, one by one
fn other(kind: usize) -> f64 { if matches!(kind, 0 | 5 | 6) { [-1.0, 0.0, 0.5, 2.0][choice(4)] } else { 0.0 } }
fn others(kind: usize) -> &'static str { if kind == 1 { ["7", "x"][choice(2)] } else { "" } }
fn world(x: Expr) -> Role { world_of(vec![locals(&["r"]), tryc(vec![assign("r", list(vec![num(5.0), x, num(6.0)]))], "err", vec![assign("r", list(vec![num(5.0), var("err"), num(6.0)]))]), ret(var("r"))]) }
fn world_of(stmts: Vec<Stmt>) -> Role {
    let mut r = main_role(&["n1", "n2", "n3", "t1", "t2", "t3", "cyc", "nat"], stmts);
    r.globals = vec![vi("img", AV::Image(Rc::new((vec![1], None, "i".into())))), vi("snd", AV::Audio(Rc::new((vec![1], "s".into()))))];
    r
}
pub fn of_one() { let (k, i) = (choice(ONE), choice(KINDS)); survive(&world(one(k, kind(i, 0))), few(), 0.0, any_u8(), "") }
pub fn of_two() {
    let (k, i, j) = (choice(TWO), choice(KINDS), choice(KINDS));
    // lists of 10^19 numbers are out of bounds
    assume(!((k == 15 || k == 24 || k == 25) && (i == 13 || j == 13)));
    let (b, tb) = (other(j), others(j));
    survive(&world(two(k, kind(i, 0), kind(j, 1))), few(), b, any_u8(), tb);
}
pub fn acts() {
    let (k, i) = (choice(ACTS), choice(KINDS));
    let j = if matches!(k, 1..=5 | 8..=10 | 19 | 25 | 29 | 31 | 33 | 34 | 36 | 40 | 41 | 45) { choice(KINDS) } else { 0 };
    // nor are loops of as many turns, nor waiting as long
    assume(!(matches!(k, 30 | 31 | 35 | 36 | 43) && (i == 13 || j == 13)));
    let c = if k == 2 || k == 8 { choice(KINDS) } else { 0 };
    let stmt = act(k, var("a"), kind(j, 1), kind(c, 2));
    let body = vec![locals(&["a", "x", "r"]), assign("a", kind(i, 0)), assign("r", txt("")), tryc(vec![stmt], "err", vec![assign("r", var("err"))]), ret(list(vec![num(5.0), var("r"), num(6.0)]))];
    let (b, tb) = (other(j), others(j));
    survive(&world_of(body), few(), b, any_u8(), tb);
}
harnesses!(of_one, of_two, acts);
