//! Helpers for programs compared with their meaning.
use crate::b::*; use crate::interp::*; use crate::rt::*; use crate::sys::*;
use alloc::vec; use alloc::vec::Vec;
pub fn say(v: Expr) -> Stmt { s(K::Say { content: bx(v), duration: None }) }
pub fn plus(v: Expr, k: Expr) -> Expr { e(X::Add { values: be(X::MakeList { values: vec![v, k] }) }) }
pub fn minus(l: Expr, r: Expr) -> Expr { e(X::Sub { left: bx(l), right: bx(r) }) }
pub fn less(l: Expr, r: Expr) -> Expr { e(X::Less { left: bx(l), right: bx(r) }) }
pub fn not(v: Expr) -> Expr { e(X::Not { value: bx(v) }) }
pub fn inc(name: &str, v: Expr) -> Stmt { s(K::AddAssign { var: lv(name), value: bx(v) }) }
pub fn callc(f: Expr, args: Vec<Expr>) -> Expr { e(X::CallClosure { new_entity: None, closure: bx(f), args }) }
pub fn callcs(f: Expr, args: Vec<Expr>) -> Stmt { s(K::CallClosure { new_entity: None, closure: bx(f), args }) }
pub fn ent(name: &str) -> Expr { e(X::Entity { name: name.into(), trans_name: name.into() }) }
pub fn callc_on(entity: Expr, f: Expr, args: Vec<Expr>) -> Expr { e(X::CallClosure { new_entity: Some(bx(entity)), closure: bx(f), args }) }
pub fn iff(c: Expr, then: Vec<Stmt>) -> Stmt { s(K::If { condition: bx(c), then }) }
pub fn ifelse(c: Expr, then: Vec<Stmt>, otherwise: Vec<Stmt>) -> Stmt { s(K::IfElse { condition: bx(c), then, otherwise }) }
pub fn repeat(times: Expr, stmts: Vec<Stmt>) -> Stmt { s(K::Repeat { times: bx(times), stmts }) }
pub fn until(c: Expr, stmts: Vec<Stmt>) -> Stmt { s(K::UntilLoop { condition: bx(c), stmts }) }
pub fn forl(i: &str, a: Expr, b: Expr, stmts: Vec<Stmt>) -> Stmt { s(K::ForLoop { var: lv(i), start: bx(a), stop: bx(b), stmts }) }
pub fn each(i: &str, items: Expr, stmts: Vec<Stmt>) -> Stmt { s(K::ForeachLoop { var: lv(i), items: bx(items), stmts }) }
pub fn warp(stmts: Vec<Stmt>) -> Stmt { s(K::Warp { stmts }) }
pub fn forever(stmts: Vec<Stmt>) -> Stmt { s(K::InfLoop { stmts }) }
pub fn tryc(code: Vec<Stmt>, var: &str, handler: Vec<Stmt>) -> Stmt { s(K::TryCatch { code, var: lv(var), handler }) }
pub fn throw(v: Expr) -> Stmt { s(K::Throw { error: bx(v) }) }
pub fn push(list: &str, v: Expr) -> Stmt { s(K::ListInsertLast { list: bvar(list), value: bx(v) }) }
pub fn pop(list: &str) -> Stmt { s(K::ListRemoveLast { list: bvar(list) }) }
pub fn stop_block() -> Stmt { s(K::Stop { mode: ast::StopMode::ThisBlock }) }
pub fn stop_script() -> Stmt { s(K::Stop { mode: ast::StopMode::ThisScript }) }
pub fn get(list: Expr, i: Expr) -> Expr { e(X::ListGet { list: bx(list), index: bx(i) }) }
pub fn len(list: Expr) -> Expr { e(X::ListLen { value: bx(list) }) }
/// a number in 0..4
pub fn small() -> V { n((any_u8() & 3) as f64) }
/// the program's result, what it says, when it yields and its variables must be those of its meaning
pub fn agree(role: &Role, args: &[(&'static str, V)]) { agree_to(role, args, 1024) }
pub fn agree_to(role: &Role, args: &[(&'static str, V)], limit: usize) {
    let (m, r) = (meaning(role, args, limit), machine(role, args, limit));
    let (res, said, order, vars) = same(&m, &r);
    check(res, 9001);
    check(said, 9002);
    check(order, 9003);
    check(vars, 9004);
}
