//! Short constructors for program ASTs, and runners.
use crate::sys::*;
use alloc::boxed::Box;
use alloc::rc::Rc;
use alloc::string::String;
use alloc::vec;
use alloc::vec::Vec;
pub use netsblox_vm::ast;
pub use netsblox_vm::ast::{BlockInfo, Entity as AEntity, Expr, ExprKind as X, FnLocation, FnRef, Function, Hat, HatKind, Role, Script, Stmt, StmtKind as K, Value as AV, VarLocation as VL, VariableDef, VariableDefInit, VariableRef};
pub use netsblox_vm::bytecode::{ByteCode, Locations};
pub use netsblox_vm::gc::*;
pub use netsblox_vm::process::*;
pub use netsblox_vm::runtime::*;

pub fn e(kind: X) -> Expr { Expr { kind, info: BlockInfo::none() } }
pub fn be(kind: X) -> Box<Expr> { Box::new(e(kind)) }
pub fn s(kind: K) -> Stmt { Stmt { kind, info: BlockInfo::none() } }
pub fn s_at(kind: K, loc: &str) -> Stmt { Stmt { kind, info: Box::new(BlockInfo { comment: None, location: Some(loc.into()) }) } }
pub fn e_at(kind: X, loc: &str) -> Expr { Expr { kind, info: Box::new(BlockInfo { comment: None, location: Some(loc.into()) }) } }
pub fn bx(x: Expr) -> Box<Expr> { Box::new(x) }
pub fn num(v: f64) -> Expr { e(X::Value(AV::Number(v))) }
pub fn txt(v: &str) -> Expr { e(X::Value(AV::String(v.into()))) }
pub fn boolean(v: bool) -> Expr { e(X::Value(AV::Bool(v))) }
pub fn vd(name: &str) -> VariableDef { VariableDef { name: name.into(), trans_name: name.into() } }
pub fn vi(name: &str, v: AV) -> VariableDefInit { VariableDefInit { def: vd(name), init: v } }
pub fn lv(name: &str) -> VariableRef { VariableRef { name: name.into(), trans_name: name.into(), location: VL::Local } }
pub fn gv(name: &str) -> VariableRef { VariableRef { name: name.into(), trans_name: name.into(), location: VL::Global } }
pub fn fv(name: &str) -> VariableRef { VariableRef { name: name.into(), trans_name: name.into(), location: VL::Field } }
pub fn var(name: &str) -> Expr { e(X::Variable { var: lv(name) }) }
pub fn bvar(name: &str) -> Box<Expr> { Box::new(var(name)) }
pub fn assign(name: &str, value: Expr) -> Stmt { s(K::Assign { var: lv(name), value: bx(value) }) }
pub fn ret(value: Expr) -> Stmt { s(K::Return { value: bx(value) }) }
pub fn list(values: Vec<Expr>) -> Expr { e(X::MakeList { values }) }
pub fn locals(names: &[&str]) -> Stmt { s(K::DeclareLocals { vars: names.iter().map(|x| vd(x)).collect() }) }
pub fn func(name: &str, params: &[&str], stmts: Vec<Stmt>) -> Function { Function { name: name.into(), trans_name: name.into(), params: params.iter().map(|x| vd(x)).collect(), upvars: vec![], returns: true, stmts } }
pub fn fref(name: &str) -> FnRef { FnRef { name: name.into(), trans_name: name.into(), location: FnLocation::Global } }
pub fn call(name: &str, args: Vec<Expr>) -> Expr { e(X::CallFn { function: fref(name), args, upvars: vec![] }) }
pub fn calls(name: &str, args: Vec<Expr>) -> Stmt { s(K::CallFn { function: fref(name), args, upvars: vec![] }) }
pub fn entity(name: &str) -> AEntity { AEntity { name: name.into(), trans_name: name.into(), fields: vec![], costumes: vec![], sounds: vec![], funcs: vec![], scripts: vec![], active_costume: None, visible: true, color: (0, 0, 0, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0 } }
pub fn role(funcs: Vec<Function>, entities: Vec<AEntity>) -> Role { Role { name: "r".into(), notes: "".into(), stage_size: (480, 360), globals: vec![], funcs, entities } }
/// a project with one function `main` over the given parameters
pub fn main_role(params: &[&str], stmts: Vec<Stmt>) -> Role { role(vec![func("main", params, stmts)], vec![entity("Stage")]) }
pub fn script(hat: HatKind, stmts: Vec<Stmt>) -> Script { Script { hat: Some(Box::new(Hat { kind: hat, info: BlockInfo::none() })), stmts } }
pub fn clos(params: &[&str], captures: &[&str], stmts: Vec<Stmt>) -> Expr { e(X::Closure { kind: ast::ClosureKind::Reporter, params: params.iter().map(|x| vd(x)).collect(), captures: captures.iter().map(|x| lv(x)).collect(), stmts }) }

pub fn nv<'gc>(v: f64) -> Value<'gc, Cu, Sys> { Value::Number(Number::new(v).unwrap()) }
pub fn tv<'gc>(v: &str) -> Value<'gc, Cu, Sys> { Value::Text(v.into()) }
pub fn lval<'gc>(mc: &Mutation<'gc>, v: Vec<Value<'gc, Cu, Sys>>) -> Value<'gc, Cu, Sys> { Value::List(Gc::new(mc, RefLock::new(v.into()))) }

/// how a process ended
pub enum End<'gc> { Ok(Value<'gc, Cu, Sys>), Err(ErrorCause<Cu, Sys>, usize), Fuel, Other }
/// a running single process
pub struct Run<'gc> { pub p: Process<'gc, Cu, Sys>, pub g: Gc<'gc, RefLock<GlobalContext<'gc, Cu, Sys>>>, pub yields: usize, pub steps: usize }
impl<'gc> Run<'gc> {
    pub fn to_end(&mut self, mc: &Mutation<'gc>, fuel: usize) -> End<'gc> {
        for _ in 0..fuel {
            self.steps += 1;
            match self.p.step(mc) {
                Ok(ProcessStep::Normal) => (),
                Ok(ProcessStep::Yield) => self.yields += 1,
                Ok(ProcessStep::Terminate { result }) => return End::Ok(result),
                Ok(_) => return End::Other,
                Err(e) => return End::Err(e.cause, e.pos),
            }
        }
        End::Fuel
    }
}
pub type Args<'gc> = Vec<(&'static str, Value<'gc, Cu, Sys>)>;
/// compiles `role` and starts its first function on its first entity
pub fn start<'gc>(mc: &Mutation<'gc>, role: &Role, sys: &Rc<Sys>, settings: Settings, args: Args<'gc>) -> Run<'gc> {
    let (code, init, _, info) = match ByteCode::compile(role) { Ok(x) => x, Err(_) => panic!("compile") };
    let pos = info.funcs[0].1;
    let glob = GlobalContext::from_init(mc, &init, Rc::new(code), settings, sys.clone());
    let entity = *glob.entities.iter().next().unwrap().1;
    let g = Gc::new(mc, RefLock::new(glob));
    let mut locals = SymbolTable::default();
    for (k, v) in args { locals.define_or_redefine(k, Shared::Unique(v)); }
    Run { p: Process::new(ProcContext { global_context: g, entity, locals, state: PSt::new(), start_pos: pos, barrier: None, reply_key: None, local_message: None }), g, yields: 0, steps: 0 }
}
/// runs `f` inside a fresh arena
pub fn gc(f: impl for<'gc> FnOnce(&'gc Mutation<'gc>)) { let arena = Arena::<Rootable![()]>::new(|_| ()); arena.mutate(|mc, _| f(mc)); }
/// evaluates one expression over parameters and hands over how it ended
pub fn eval<'gc>(mc: &Mutation<'gc>, params: &[&str], args: Args<'gc>, x: Expr, sys: &Rc<Sys>) -> End<'gc> {
    start(mc, &main_role(params, vec![ret(x)]), sys, Settings::default(), args).to_end(mc, 4000)
}
/// a text that stays, as the descriptions of programs want it
pub fn keep(x: String) -> &'static str { alloc::boxed::Box::leak(x.into_boxed_str()) }
/// an arbitrary ASCII character but NUL
pub fn any_char() -> char { let c = crate::rt::any_u8() & 127; if c == 0 { crate::rt::stop() } c as char }
/// a text around one arbitrary character
pub fn any_text(before: &str, after: &str) -> &'static str { let mut x: String = before.into(); x.push(any_char()); x.push_str(after); keep(x) }
pub fn str_of(x: &str) -> String { x.into() }
/// an arbitrary number of the machine (every finite double but -0)
pub fn any_num() -> f64 { match Number::new(any_f64()) { Ok(x) => x.get(), Err(_) => crate::rt::stop() } }
use crate::rt::any_f64;
use gen::*;
mod gen {
    use super::*; use crate::rt::*;
    /// a value of the machine from a description of it
    pub fn val<'gc>(mc: &Mutation<'gc>, v: &V) -> Value<'gc, Cu, Sys> {
        match v {
            V::B(x) => Value::Bool(*x),
            V::N(x) => nv(*x),
            V::T(x) => tv(x),
            V::L(x) => lval(mc, x.iter().map(|x| val(mc, x)).collect()),
            _ => panic!("val"),
        }
    }
    /// equality of descriptions; the shape is compared concretely, numbers and flags without branching
    pub fn veq(a: &V, b: &V) -> bool {
        match (a, b) {
            (V::N(x), V::N(y)) => x.to_bits() == y.to_bits(),
            (V::B(x), V::B(y)) => x == y,
            (V::T(x), V::T(y)) => x == y,
            (V::L(x), V::L(y)) => { if x.len() != y.len() { return false; } let mut r = true; for i in 0..x.len() { r &= veq(&x[i], &y[i]); } r }
            (V::C, V::C) | (V::Deep, V::Deep) => true,
            (V::E(x), V::E(y)) | (V::Img(x), V::Img(y)) | (V::Aud(x), V::Aud(y)) => x == y,
            (V::Nat(x), V::Nat(y)) => x == y,
            _ => false,
        }
    }
    pub fn l(v: Vec<V>) -> V { V::L(v) }
    pub fn ln(v: &[f64]) -> V { V::L(v.iter().map(|x| V::N(*x)).collect()) }
    /// -0 is the number 0
    pub fn norm(x: f64) -> f64 { match Number::new(x) { Ok(x) => x.get(), Err(_) => x } }
    /// an arbitrary integer of the machine with |x| <= 2^15
    pub fn any_int() -> f64 { (any_u16() as i16) as f64 }
}
pub use gen::{val, veq, l, ln, norm, any_int};
/// evaluates an expression over described values (parameters a, b, c …); None: it failed
pub fn ev(x: Expr, args: &[V]) -> Option<V> { ev_sys(x, args, &Sys::new()) }
pub const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
pub fn ev_sys(x: Expr, args: &[V], sys: &Rc<Sys>) -> Option<V> {
    let mut out = None;
    gc(|mc| {
        let vals = args.iter().enumerate().map(|(i, v)| (NAMES[i], val(mc, v))).collect();
        match eval(mc, &NAMES[..args.len()], vals, x, sys) { End::Ok(v) => out = Some(snap(&v)), End::Err(..) => (), _ => panic!("did not finish") }
    });
    out
}
