//! P34 projects that cannot be run as written are refused
use crate::b::*; use netsblox_vm::bytecode::CompileError; use crate::lang::*; use crate::rt::*;
use alloc::boxed::Box; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;

fn num1() -> Box<Expr> { bx(num(1.0)) }
/// places a reporter can stand in, at any depth
const SPOTS: usize = 16;
fn around(k: usize, x: Expr) -> Vec<Stmt> {
    let y = || vec![say(num(1.0))];
    match k {
        0 => vec![say(x)],
        1 => vec![ret(list(vec![num(1.0), e(X::Not { value: bx(x) })]))],
        2 => vec![iff(boolean(false), vec![assign("v", x)])],
        3 => vec![ifelse(x, y(), y())],
        4 => vec![ifelse(boolean(true), y(), vec![warp(vec![say(x)])])],
        5 => vec![repeat(x, y())],
        6 => vec![forl("i", num(1.0), x, y())],
        7 => vec![tryc(vec![], "er", vec![throw(x)])],
        8 => vec![ret(num(1.0)), say(x)], // never reached
        9 => vec![say(clos(&["p"], &[], vec![ret(x)]))],
        10 => vec![say(callc(clos(&[], &[], vec![say(clos(&[], &[], vec![say(x)]))]), vec![]))],
        11 => vec![calls("f", vec![num(1.0), x])],
        12 => vec![each("i", list(vec![]), vec![until(less(x, num(1.0)), y())])],
        13 => vec![say(e(X::Conditional { condition: bx(boolean(true)), then: num1(), otherwise: bx(x) }))],
        14 => vec![say(e(X::Map { f: bx(clos(&["p"], &[], vec![ret(e(X::Or { left: num1(), right: bx(x) }))])), list: bx(list(vec![])) }))],
        _ => vec![s(K::SendLocalMessage { target: None, msg_type: bx(x), wait: true })],
    }
}
/// places a command can stand in
const CSPOTS: usize = 9;
fn within(k: usize, x: Stmt) -> Vec<Stmt> {
    match k {
        0 => vec![x],
        1 => vec![say(num(1.0)), iff(boolean(false), vec![x])],
        2 => vec![ifelse(boolean(true), vec![], vec![say(num(1.0)), x])],
        3 => vec![forever(vec![]), x],
        4 => vec![warp(vec![repeat(num(0.0), vec![x])])],
        5 => vec![tryc(vec![x], "er", vec![])],
        6 => vec![tryc(vec![], "er", vec![x])],
        7 => vec![say(clos(&[], &[], vec![x]))],
        _ => vec![stop_script(), callcs(clos(&[], &[], vec![forl("i", num(1.0), num(2.0), vec![x])]), vec![])],
    }
}
/// a project with the statements in a function of the project, in one of a sprite, in a script with a hat or in one without
fn project(place: usize, v: Vec<Stmt>) -> Role {
    let mut r = role(vec![func("f", &["a", "b"], vec![ret(var("a"))])], vec![entity("Stage"), entity("A")]);
    match place {
        0 => r.funcs.push(func("g", &[], v)),
        1 => r.entities[1].funcs.push(func("g", &[], v)),
        2 => r.entities[1].scripts.push(script(HatKind::OnFlag, v)),
        _ => r.entities[0].scripts.push(Script { hat: None, stmts: v }),
    }
    r
}
/// reporters the machine has no meaning for, and some that it has
const EXPRS: usize = 20;
fn expr(k: usize) -> (X, bool) {
    match k {
        0 => (X::MouseX, false), 1 => (X::MouseY, false), 2 => (X::StageWidth, false), 3 => (X::StageHeight, false), 4 => (X::Latitude, false), 5 => (X::Longitude, false),
        6 => (X::KeyDown { key: num1() }, false), 7 => (X::Sign { value: num1() }, false), 8 => (X::ImageOfEntity { entity: num1() }, false), 9 => (X::ImageOfDrawings, false),
        10 => (X::IsTouchingEntity { entity: num1() }, false), 11 => (X::IsTouchingMouse, false), 12 => (X::IsTouchingEdge, false), 13 => (X::IsTouchingDrawings, false),
        14 => (X::XPos, true), 15 => (X::Timer, true), 16 => (X::Sqrt { value: num1() }, true), 17 => (X::This, true), 18 => (X::RpcError, true), _ => (X::Costume, true),
    }
}
const STMTS: usize = 9;
fn stmt(k: usize) -> (K, bool) {
    match k {
        0 => (K::BounceOffEdge, false), 1 => (K::GotoMouse, false), 2 => (K::GotoRandom, false), 3 => (K::SetHeadingRandom, false), 4 => (K::Stamp, false), 5 => (K::Write { content: num1(), font_size: num1() }, false),
        6 => (K::PenClear, true), 7 => (K::Forward { distance: num1() }, true), _ => (K::ResetTimer, true),
    }
}
/// a block without meaning anywhere makes the project refused with exactly that block
pub fn blocks() {
    let place = choice(4);
    if choice(2) == 0 {
        let (k, ok) = expr(choice(EXPRS));
        let d = core::mem::discriminant(&k);
        let r = project(place, around(choice(SPOTS), e(k)));
        cover!();
        match ByteCode::compile(&r) { Ok(_) => { cover!(); check!(ok) }
            Err(CompileError::UnsupportedExpr { kind }) => { cover!(); check!(!ok && core::mem::discriminant(kind) == d) } Err(_) => check!(false) }
    } else {
        let (k, ok) = stmt(choice(STMTS));
        let d = core::mem::discriminant(&k);
        let r = project(place, within(choice(CSPOTS), s(k)));
        match ByteCode::compile(&r) { Ok(_) => { cover!(); check!(ok) }
            Err(CompileError::UnsupportedStmt { kind }) => { cover!(); check!(!ok && core::mem::discriminant(kind) == d) } Err(_) => check!(false) }
    }
}
/// the blocks for system calls take a name and a list of arguments, the one for their last error nothing; other unknown blocks take anything
pub fn native() {
    let place = choice(4);
    let count = choice(5);
    let args: Vec<Expr> = (0..count).map(|i| if i == 1 { match count { 2 => list(vec![num(3.0), num(4.0)]), _ => num(2.0) } } else { txt("n") }).collect();
    let reporter = choice(2) == 0;
    let (stem, last, need): (&str, char, Option<usize>) = match choice(4) {
        0 => ("nativeCallSyscal", 'l', if reporter { Some(2) } else { None }),
        1 => ("nativeRunSyscal", 'l', if reporter { None } else { Some(2) }),
        2 => ("nativeSyscallErro", 'r', if reporter { Some(0) } else { None }),
        _ => ("native", 'X', None),
    };
    // any name that differs in its last letter is another block
    let c = any_char();
    let mut name = String::from(stem); name.push(c);
    let need = if c == last { need } else { None };
    let located = choice(2) == 1;
    let mut at = String::from("c_"); let d = any_u8(); assume((d >= b'0') & (d <= b'9')); at.push(d as char);
    let (x, y) = (X::UnknownBlock { name: name.as_str().into(), args: args.clone() }, K::UnknownBlock { name: name.as_str().into(), args });
    let v = if reporter { around(choice(SPOTS), if located { e_at(x, &at) } else { e(x) }) } else { within(choice(CSPOTS), if located { s_at(y, &at) } else { s(y) }) };
    let r = project(place, v);
    let ok = match need { Some(x) => x == count, None => true };
    match ByteCode::compile(&r) {
        Ok(_) => { cover!(); check!(ok) }
        Err(CompileError::InvalidBlock { loc }) => { cover!(); check!(!ok && loc == if located { Some(at.as_str()) } else { None }) }
        Err(_) => check!(false),
    }
}
/// a test for a kind of value works for all kinds but those of code
pub fn kinds() {
    use ast::ValueType as T;
    let k = choice(10);
    let ty = match k { 0 => T::Number, 1 => T::Text, 2 => T::Bool, 3 => T::List, 4 => T::Sprite, 5 => T::Costume, 6 => T::Sound, 7 => T::Command, 8 => T::Reporter, _ => T::Predicate };
    let r = project(choice(4), around(choice(SPOTS), e(X::TypeQuery { value: num1(), ty })));
    match ByteCode::compile(&r) { Ok(_) => { cover!(); check!(k < 7) }
            Err(CompileError::CurrentlyUnsupported { .. }) => { cover!(); check!(k >= 7) } Err(_) => check!(false) }
}
/// hats: those the machine knows are taken, others are refused by name, wherever they are in the project
pub fn hats() {
    let k = choice(14);
    let kind = match k {
        0 => HatKind::OnFlag, 1 => HatKind::OnClone, 2 => HatKind::LocalMessage { msg_type: None }, 3 => HatKind::LocalMessage { msg_type: Some("m".into()) },
        4 => HatKind::NetworkMessage { msg_type: "m".into(), fields: vec![lv("x")] }, 5 => HatKind::Unknown { name: "any".into(), fields: vec![] },
        6 => HatKind::MouseDown, 7 => HatKind::MouseUp, 8 => HatKind::MouseEnter, 9 => HatKind::MouseLeave, 10 => HatKind::ScrollUp, 11 => HatKind::ScrollDown, 12 => HatKind::Dropped, _ => HatKind::When { condition: num1() },
    };
    let d = core::mem::discriminant(&kind);
    let mut r = project(choice(4), vec![say(num(1.0))]);
    let stmts = if choice(2) == 0 { vec![] } else { vec![say(num(2.0))] };
    r.entities[choice(2)].scripts.push(script(kind, stmts));
    match ByteCode::compile(&r) {
        Ok((_, _, _, info)) => { cover!(); check!(k < 6 && info.entities.len() == 2) }
        Err(CompileError::UnsupportedEvent { kind }) => { cover!(); check!(k >= 6 && core::mem::discriminant(kind) == d) }
        Err(_) => check!(false),
    }
}
/// a key is one of the named ones or one character
pub fn keys() {
    let len = choice(4);
    let mut key = String::new();
    for _ in 0..len { let c = if cfg!(feature = "deep") { any_char() } else { (any_u8() & 127) as char }; key.push(c); }
    let named = choice(8);
    const N: [&str; 8] = ["", "any key", "up arrow", "down arrow", "left arrow", "right arrow", "enter", "space"];
    let whole = named > 0 && len == 0;
    let (k, one) = if named > 0 { let mut k = String::from(N[named]); k.push_str(&key); (k, false) } else { let one = len == 1; (key, one) };
    let mut r = project(2, vec![say(num(1.0))]);
    r.entities[1].scripts.push(script(HatKind::OnKey { key: k.as_str().into() }, vec![say(num(2.0))]));
    match ByteCode::compile(&r) {
        Ok(_) => { cover!(); check!(whole || one) }
        Err(CompileError::BadKeycode { key }) => { cover!(); check!(!whole && !one && key == k.as_str()) }
        Err(_) => check!(false),
    }
}
/// no other words are keys
pub fn words() {
    let len = 4 + choice(8);
    let mut k = String::new();
    for _ in 0..len { let c = any_u8(); assume(((c >= b'a') & (c <= b'z')) | (c == b' ')); k.push(c as char); }
    let mut known = false;
    for w in ["any key", "up arrow", "down arrow", "left arrow", "right arrow", "enter", "space"] { known |= w == k; }
    let mut r = project(2, vec![say(num(1.0))]);
    r.entities[1].scripts.push(script(HatKind::OnKey { key: k.as_str().into() }, vec![say(num(2.0))]));
    match ByteCode::compile(&r) {
        Ok(_) => { cover!(); check!(known) }
        Err(CompileError::BadKeycode { key }) => { cover!(); check!(!known && key == k.as_str()) }
        Err(_) => check!(false),
    }
}
/// nor are two characters
pub fn pairs() {
    let (a, b) = (["a", "é", " ", "→", "𝄞"][choice(5)], choice(2));
    let c = if b == 0 { any_char() } else { any_u8() as char };
    let mut k = String::from(a);
    k.push(c);
    let mut r = project(2, vec![say(num(1.0))]);
    r.entities[1].scripts.push(script(HatKind::OnKey { key: k.as_str().into() }, vec![say(num(2.0))]));
    cover!();
    match ByteCode::compile(&r) { Err(CompileError::BadKeycode { key }) => check!(key == k.as_str()), _ => check!(false) }
}
harnesses!(blocks, native, kinds, hats, keys, words, pairs);
