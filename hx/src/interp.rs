//! A direct, recursive reading of programs: what blocks mean, written down independently of the compiler and machine.
use crate::b::*; use crate::sys::*;
use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec; use core::cell::RefCell;

#[derive(Clone)]
pub enum IV<'a> { B(bool), N(f64), T(String), L(Rc<RefCell<Vec<IV<'a>>>>), C(Rc<Clo<'a>>), E(usize) }
pub struct Clo<'a> { params: Vec<&'a str>, caps: Scope<'a>, stmts: &'a [Stmt], code: Option<usize> }
type Slot<'a> = Rc<RefCell<IV<'a>>>;
type Scope<'a> = Vec<(String, Slot<'a>)>;
/// ways to leave a block early
pub enum Flow<'a> { Ret(IV<'a>), Err(Option<String>), Stop, Fuel }
type R<'a, T> = Result<T, Flow<'a>>;
#[derive(Clone, Debug, PartialEq)]
pub enum Step { Say(V), Yield }
struct Frame<'a> { locals: Scope<'a>, entity: usize, code: Option<usize> }
pub struct Interp<'a> {
    pub role: &'a Role, pub globals: Scope<'a>, pub fields: Vec<Scope<'a>>, frames: Vec<Frame<'a>>,
    pub log: Vec<Step>, pub warp: usize, pub depth_limit: usize, pub fuel: usize,
}
/// programs that leave the part of the language read here are not compared
fn outside() -> ! { crate::rt::stop() }
fn err<'a, T>() -> R<'a, T> { Err(Flow::Err(None)) }
fn find<'a>(s: &Scope<'a>, k: &str) -> Option<Slot<'a>> { s.iter().find(|x| x.0 == k).map(|x| x.1.clone()) }
fn define<'a>(s: &mut Scope<'a>, k: &str, v: Slot<'a>) { match s.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = v, None => s.push((k.into(), v)) } }
fn slot<'a>(v: IV<'a>) -> Slot<'a> { Rc::new(RefCell::new(v)) }
pub fn list_iv<'a>(x: Vec<IV<'a>>) -> IV<'a> { IV::L(Rc::new(RefCell::new(x))) }
pub fn from_v<'a>(v: &V) -> IV<'a> { match v { V::B(x) => IV::B(*x), V::N(x) => IV::N(*x), V::T(x) => IV::T(x.clone()), V::L(x) => list_iv(x.iter().map(from_v).collect()), _ => panic!() } }
impl<'a> Interp<'a> {
    pub fn new(role: &'a Role) -> Self {
        let init = |v: &[VariableDefInit]| v.iter().map(|x| (String::from(x.def.trans_name.as_str()), slot(konst(&x.init)))).collect();
        Interp { role, globals: init(&role.globals), fields: role.entities.iter().map(|x| init(&x.fields)).collect(), frames: vec![], log: vec![], warp: 0, depth_limit: usize::MAX, fuel: 120 }
    }
    pub fn snap(&self, v: &IV<'a>) -> V { self.snap_d(v, 6) }
    fn snap_d(&self, v: &IV<'a>, d: usize) -> V {
        if d == 0 { return V::Deep }
        match v { IV::B(x) => V::B(*x), IV::N(x) => V::N(*x), IV::T(x) => V::T(x.clone()), IV::L(x) => V::L(x.borrow().iter().map(|x| self.snap_d(x, d - 1)).collect()), IV::C(_) => V::C, IV::E(i) => V::E(self.role.entities[*i].name.as_str().into()) }
    }
    fn slot_of(&self, k: &str) -> R<'a, Slot<'a>> {
        let f = self.frames.last().unwrap();
        find(&f.locals, k).or_else(|| find(&self.fields[f.entity], k)).or_else(|| find(&self.globals, k)).ok_or(Flow::Err(None))
    }
    fn local(&mut self, k: &str, v: Slot<'a>) { define(&mut self.frames.last_mut().unwrap().locals, k, v) }
    fn pause(&mut self) -> R<'a, ()> { self.tick()?; if self.warp == 0 { self.log.push(Step::Yield) } Ok(()) }
    fn tick(&mut self) -> R<'a, ()> { if self.fuel == 0 { return Err(Flow::Fuel) } self.fuel -= 1; Ok(()) }
    /// runs statements as the body of something called: its value, or a failure
    fn body(&mut self, locals: Scope<'a>, entity: usize, code: Option<usize>, upvars: &'a [VariableRef], stmts: &'a [Stmt]) -> R<'a, IV<'a>> {
        if self.frames.len() >= self.depth_limit { return err() }
        self.tick()?;
        let warp = self.warp;
        self.frames.push(Frame { locals, entity, code });
        let depth = self.frames.len();
        let r = (|| { for u in upvars { self.upvar(u)?; } self.stmts(stmts) })();
        self.frames.truncate(depth - 1);
        let v = match r { Ok(()) => IV::T(String::new()), Err(Flow::Ret(v)) => v, Err(x) => return Err(x) };
        self.warp = warp;
        Ok(v)
    }
    fn upvar(&mut self, u: &'a VariableRef) -> R<'a, ()> {
        let name = match &*self.slot_of(&u.trans_name)?.borrow() { IV::T(x) => x.clone(), _ => return err() };
        if self.frames.len() < 2 { return err() }
        let there = find(&self.frames[self.frames.len() - 2].locals, &name).ok_or(Flow::Err(None))?;
        self.local(&u.trans_name, there);
        Ok(())
    }
    /// runs a function of the project from outside
    pub fn run(&mut self, name: &str, args: &[(&str, V)], entity: usize) -> R<'a, IV<'a>> {
        let f = self.role.funcs.iter().find(|x| x.trans_name == name).unwrap();
        let locals = args.iter().map(|(k, v)| (String::from(*k), slot(from_v(v)))).collect();
        let limit = self.depth_limit; self.depth_limit = usize::MAX.min(limit.max(1));
        let r = self.body(locals, entity, None, &f.upvars, &f.stmts);
        self.depth_limit = limit;
        r
    }
    fn call_fn(&mut self, f: &'a FnRef, args: &'a [Expr], upvars: &'a [VariableRef]) -> R<'a, IV<'a>> {
        for u in upvars { self.local(&u.trans_name, slot(IV::N(0.0))); }
        let a = args.iter().map(|x| self.expr(x)).collect::<R<'a, Vec<_>>>()?;
        let fr = self.frames.last().unwrap();
        let (entity, code) = (fr.entity, fr.code);
        let own = code.and_then(|c| self.role.entities[c].funcs.iter().find(|x| x.trans_name == f.trans_name));
        let (f, code) = match own { Some(f) => (f, code), None => (self.role.funcs.iter().find(|x| x.trans_name == f.trans_name).unwrap(), None) };
        let mut locals = vec![];
        for (p, v) in f.params.iter().zip(a) { define(&mut locals, &p.trans_name, slot(v)); }
        self.body(locals, entity, code, &f.upvars, &f.stmts)
    }
    fn apply(&mut self, f: &IV<'a>, args: Vec<IV<'a>>, entity: Option<usize>) -> R<'a, IV<'a>> {
        let f = match f { IV::C(f) => f.clone(), _ => return err() };
        if f.params.len() != args.len() { return err() }
        let mut locals: Scope<'a> = f.caps.clone();
        for (p, v) in f.params.iter().zip(args) { define(&mut locals, p, slot(v)); }
        let entity = entity.unwrap_or(self.frames.last().unwrap().entity);
        self.body(locals, entity, f.code, &[], f.stmts)
    }
    fn call_clo(&mut self, ent: &'a Option<alloc::boxed::Box<Expr>>, f: &'a Expr, args: &'a [Expr]) -> R<'a, IV<'a>> {
        let ent = match ent { Some(x) => Some(self.expr(x)?), None => None };
        let f = self.expr(f)?;
        let a = args.iter().map(|x| self.expr(x)).collect::<R<'a, Vec<_>>>()?;
        if !matches!(&f, IV::C(f) if f.params.len() == a.len()) { return err() }
        let ent = match ent { Some(IV::E(i)) => Some(i), Some(_) => return err(), None => None };
        self.apply(&f, a, ent)
    }
    /// of the texts, those of digits are numbers
    fn num(&mut self, x: &'a Expr) -> R<'a, f64> { match self.expr(x)? { IV::N(x) => Ok(x), IV::T(x) if !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit()) => Ok(x.bytes().fold(0.0, |r, c| r * 10.0 + (c - b'0') as f64)), _ => err() } }
    fn boolean(&mut self, x: &'a Expr) -> R<'a, bool> { match self.expr(x)? { IV::B(x) => Ok(x), _ => err() } }
    fn items(&mut self, x: &'a Expr) -> R<'a, Vec<IV<'a>>> { match self.expr(x)? { IV::L(x) => Ok(x.borrow().clone()), _ => err() } }
    fn many(&mut self, x: &'a Expr) -> R<'a, Vec<IV<'a>>> { match &x.kind { X::MakeList { values } => values.iter().map(|x| self.expr(x)).collect(), _ => self.items(x) } }
    fn cmp(&mut self, l: &'a Expr, r: &'a Expr) -> R<'a, (f64, f64)> { let a = self.expr(l)?; let b = self.expr(r)?; match (a, b) { (IV::N(a), IV::N(b)) => Ok((a, b)), (IV::L(_), _) | (_, IV::L(_)) => outside(), _ => err() } }
    /// ordering of anything but numbers is the business of another property
    fn ord(&mut self, l: &'a Expr, r: &'a Expr) -> R<'a, (f64, f64)> { let a = self.expr(l)?; let b = self.expr(r)?; match (a, b) { (IV::N(a), IV::N(b)) => Ok((a, b)), _ => outside() } }
    pub fn expr(&mut self, x: &'a Expr) -> R<'a, IV<'a>> {
        Ok(match &x.kind {
            X::Value(v) => konst(v),
            X::Variable { var } => self.slot_of(&var.trans_name)?.borrow().clone(),
            X::Add { values } => { let mut s = 0.0; for v in self.many(values)? { match v { IV::N(x) => s += x, IV::L(_) => outside(), _ => return err() } } IV::N(s) }
            X::Mul { values } => { let mut s = 1.0; for v in self.many(values)? { match v { IV::N(x) => s *= x, IV::L(_) => outside(), _ => return err() } } IV::N(norm(s)) }
            X::Sub { left, right } => { let (a, b) = self.cmp(left, right)?; IV::N(a - b) }
            X::Less { left, right } => { let (a, b) = self.ord(left, right)?; IV::B(a < b) }
            X::Greater { left, right } => { let (a, b) = self.ord(left, right)?; IV::B(a > b) }
            X::Eq { left, right } => { let a = self.expr(left)?; let b = self.expr(right)?; IV::B(match (a, b) { (IV::N(a), IV::N(b)) => a == b, (IV::T(a), IV::T(b)) => a == b, (IV::B(a), IV::B(b)) => a == b, _ => outside() }) }
            X::Identical { left, right } => { let a = self.expr(left)?; let b = self.expr(right)?; IV::B(match (a, b) { (IV::L(a), IV::L(b)) => Rc::ptr_eq(&a, &b), (IV::C(a), IV::C(b)) => Rc::ptr_eq(&a, &b), (IV::E(a), IV::E(b)) => a == b, _ => return err() }) }
            X::And { left, right } => IV::B(self.boolean(left)? && self.boolean(right)?),
            X::Or { left, right } => IV::B(self.boolean(left)? || self.boolean(right)?),
            X::Not { value } => IV::B(!self.boolean(value)?),
            X::Conditional { condition, then, otherwise } => if self.boolean(condition)? { self.expr(then)? } else { self.expr(otherwise)? },
            X::MakeList { .. } => list_iv(self.many(x)?),
            X::CopyList { list } => list_iv(self.items(list)?),
            X::ListLen { value } => IV::N(self.items(value)?.len() as f64),
            X::ListGet { list, index } => { let i = self.num(index)?; let l = self.items(list)?; for k in 0..l.len() { if i == (k + 1) as f64 { return Ok(l[k].clone()); } } return err() }
            X::CallFn { function, args, upvars } => self.call_fn(function, args, upvars)?,
            X::CallClosure { new_entity, closure, args } => self.call_clo(new_entity, closure, args)?,
            X::Closure { params, captures, stmts, .. } => {
                let mut caps = vec![];
                for c in captures { let s = self.slot_of(&c.trans_name)?; define(&mut caps, &c.trans_name, s); }
                IV::C(Rc::new(Clo { params: params.iter().map(|x| x.trans_name.as_str()).collect(), caps, stmts, code: self.frames.last().unwrap().code }))
            }
            X::This => IV::E(self.frames.last().unwrap().entity),
            X::Entity { trans_name, .. } => match self.role.entities.iter().position(|e| e.trans_name == *trans_name) { Some(i) => IV::E(i), None => return err() },
            X::Map { f, list } => { let f = self.expr(f)?; let l = self.items(list)?; let mut o = vec![]; for v in l { o.push(self.apply(&f, vec![v], None)?); self.pause()?; } list_iv(o) }
            X::Keep { f, list } => { let f = self.expr(f)?; let l = self.items(list)?; let mut o = vec![]; for v in l { match self.apply(&f, vec![v.clone()], None)? { IV::B(b) => if b { o.push(v) }, _ => return err() } self.pause()?; } list_iv(o) }
            X::FindFirst { f, list } => { let f = self.expr(f)?; let l = self.items(list)?; for v in l { match self.apply(&f, vec![v.clone()], None)? { IV::B(b) => if b { return Ok(v) }, _ => return err() } self.pause()?; } IV::T(String::new()) }
            X::Combine { f, list } => { let l = self.items(list)?; let f = self.expr(f)?; let mut acc = None; for v in l { acc = Some(match acc { None => v, Some(a) => { let r = self.apply(&f, vec![a, v], None)?; self.pause()?; r } }); } acc.unwrap_or(IV::N(0.0)) }
            _ => panic!("interp expr"),
        })
    }
    fn stmts(&mut self, x: &'a [Stmt]) -> R<'a, ()> { for s in x { self.stmt(s)?; } Ok(()) }
    fn set(&mut self, var: &'a VariableRef, v: IV<'a>) -> R<'a, ()> { *self.slot_of(&var.trans_name)?.borrow_mut() = v; Ok(()) }
    fn stmt(&mut self, x: &'a Stmt) -> R<'a, ()> {
        match &x.kind {
            K::DeclareLocals { vars } => for v in vars { self.local(&v.trans_name, slot(IV::N(0.0))); },
            K::Assign { var, value } => { let v = self.expr(value)?; self.set(var, v)? }
            K::AddAssign { var, value } => { let b = self.num(value)?; let a = match &*self.slot_of(&var.trans_name)?.borrow() { IV::N(x) => *x, IV::L(_) => outside(), _ => return err() }; self.set(var, IV::N(a + b))? }
            K::Warp { stmts } => { self.warp += 1; self.stmts(stmts)?; self.warp -= 1; }
            K::InfLoop { stmts } => loop { self.stmts(stmts)?; self.pause()?; },
            K::UntilLoop { condition, stmts } => while !self.boolean(condition)? { self.stmts(stmts)?; self.pause()?; },
            K::WaitUntil { condition } => while !self.boolean(condition)? { self.pause()?; },
            K::Repeat { times, stmts } => { let mut k = self.num(times)?; while k > 0.0 { self.stmts(stmts)?; k -= 1.0; self.pause()?; } }
            K::ForLoop { var, start, stop, stmts } => {
                self.local(&var.trans_name, slot(IV::N(0.0)));
                let a = self.num(start)?; let b = self.num(stop)?;
                let d = if a > b { -1.0 } else { 1.0 };
                let mut i = a;
                while if d > 0.0 { i <= b } else { i >= b } { self.set(var, IV::N(i))?; self.stmts(stmts)?; i += d; self.pause()?; }
            }
            K::ForeachLoop { var, items, stmts } => {
                self.local(&var.trans_name, slot(IV::N(0.0)));
                for v in self.items(items)? { self.set(var, v)?; self.stmts(stmts)?; self.pause()?; }
            }
            K::If { condition, then } => if self.boolean(condition)? { self.stmts(then)? },
            K::IfElse { condition, then, otherwise } => if self.boolean(condition)? { self.stmts(then)? } else { self.stmts(otherwise)? },
            K::TryCatch { code, var, handler } => {
                let (warp, depth) = (self.warp, self.frames.len());
                match self.stmts(code) {
                    Err(Flow::Err(m)) => { self.warp = warp; self.frames.truncate(depth); self.local(&var.trans_name, slot(IV::T(m.unwrap_or(String::from("?"))))); self.stmts(handler)? }
                    x => x?,
                }
            }
            K::Throw { error } => return Err(match self.expr(error)? { IV::T(x) => Flow::Err(Some(x)), _ => Flow::Err(None) }),
            K::ListInsertLast { list, value } => { let v = self.expr(value)?; match self.expr(list)? { IV::L(x) => x.borrow_mut().push(v), _ => return err() } }
            K::ListRemoveLast { list } => match self.expr(list)? { IV::L(x) => if x.borrow_mut().pop().is_none() { return err() }, _ => return err() },
            K::Return { value } => { let v = self.expr(value)?; return Err(Flow::Ret(v)) }
            K::Stop { mode: ast::StopMode::ThisBlock } => return Err(Flow::Ret(IV::T(String::new()))),
            K::Stop { mode: ast::StopMode::ThisScript } => return Err(Flow::Stop),
            K::Say { content, duration: None } => { let v = self.expr(content)?; let v = self.snap(&v); self.log.push(Step::Say(v)) }
            K::CallFn { function, args, upvars } => { self.call_fn(function, args, upvars)?; }
            K::CallClosure { new_entity, closure, args } => { self.call_clo(new_entity, closure, args)?; }
            _ => panic!("interp stmt"),
        }
        Ok(())
    }
}
fn konst<'a>(v: &AV) -> IV<'a> {
    match v { AV::Bool(x) => IV::B(*x), AV::Number(x) => IV::N(*x), AV::String(x) => IV::T(x.as_str().into()), AV::List(x, _) => list_iv(x.iter().map(konst).collect()), _ => panic!() }
}
/// how a program ended, what it said and where it let others run
#[derive(Debug, Clone, PartialEq)]
pub enum Res { Val(V), Err, Stop, Fuel }
pub struct Trace { pub res: Res, pub log: Vec<Step>, pub globals: Vec<V>, pub fields: Vec<V> }
pub fn meaning(role: &Role, args: &[(&'static str, V)], limit: usize) -> Trace {
    let mut it = Interp::new(role);
    it.depth_limit = limit;
    let r = it.run("main", args, 0);
    let res = match r { Ok(v) => Res::Val(it.snap(&v)), Err(Flow::Err(_)) => Res::Err, Err(Flow::Stop) => Res::Stop, Err(Flow::Fuel) => Res::Fuel, Err(Flow::Ret(_)) => panic!() };
    let globals = it.globals.iter().map(|x| it.snap(&x.1.borrow())).collect();
    let fields = it.fields.iter().flatten().map(|x| it.snap(&x.1.borrow())).collect();
    Trace { res, log: core::mem::take(&mut it.log), globals, fields }
}
/// the same from the compiled program on the machine; the stacks are also checked to be empty at the end
pub fn machine(role: &Role, args: &[(&'static str, V)], limit: usize) -> Trace { machine_long(role, args, limit, 1500) }
pub fn machine_long(role: &Role, args: &[(&'static str, V)], limit: usize, mut fuel: usize) -> Trace {
    let sys = Sys::new();
    let mut out = None;
    gc(|mc| {
        let settings = Settings { max_call_depth: limit, ..Settings::default() };
        let mut r = start(mc, role, &sys, settings, args.iter().map(|(k, v)| (*k, val(mc, v))).collect());
        let mut log = vec![];
        let res = loop {
            let step = r.p.step(mc);
            for x in sys.log.borrow_mut().drain(..) { match x { Ev::Print(_, v) => log.push(Step::Say(v.unwrap_or(V::T(String::new())))), _ => panic!() } }
            match step {
                Ok(ProcessStep::Normal) => (),
                Ok(ProcessStep::Yield) => log.push(Step::Yield),
                Ok(ProcessStep::Terminate { result }) => break Res::Val(snap(&result)),
                Ok(ProcessStep::Abort { .. }) => break Res::Stop,
                Err(_) => break Res::Err,
                Ok(_) => panic!(),
            }
            fuel -= 1;
            if fuel == 0 { break Res::Fuel }
        };
        let g = r.g.borrow();
        let globals = role.globals.iter().map(|x| snap(&*g.globals.lookup(&x.def.trans_name).unwrap().get())).collect();
        let fields = role.entities.iter().flat_map(|e| { let en = g.entities.iter().find(|x| x.0 == &e.trans_name).unwrap().1.borrow(); e.fields.iter().map(|x| snap(&*en.fields.lookup(&x.def.trans_name).unwrap().get())).collect::<Vec<_>>() }).collect();
        out = Some(Trace { res, log, globals, fields });
    });
    out.unwrap()
}
fn step_eq(a: &Step, b: &Step) -> bool { match (a, b) { (Step::Yield, Step::Yield) => true, (Step::Say(a), Step::Say(b)) => veq(a, b), _ => false } }
/// compares the meaning of a program with what the machine does; the parts are (result, what was said, yields, variables)
pub fn same(m: &Trace, r: &Trace) -> (bool, bool, bool, bool) {
    let res = match (&m.res, &r.res) { (Res::Val(a), Res::Val(b)) => veq(a, b), (a, b) => core::mem::discriminant(a) == core::mem::discriminant(b) };
    // programs that do not end are compared on what both got to
    let fuel = matches!((&m.res, &r.res), (Res::Fuel, Res::Fuel));
    let says = |t: &Trace| t.log.iter().filter(|x| matches!(x, Step::Say(_))).cloned().collect::<Vec<_>>();
    let (a, b) = (says(m), says(r));
    let said = (fuel || a.len() == b.len()) && { let mut k = true; for i in 0..a.len().min(b.len()) { k &= step_eq(&a[i], &b[i]); } k };
    let order = (fuel || m.log.len() == r.log.len()) && m.log.iter().zip(&r.log).all(|(a, b)| core::mem::discriminant(a) == core::mem::discriminant(b));
    if fuel { return (res, said, order, true) }
    let vars = { let mut k = true; for (a, b) in m.globals.iter().zip(&r.globals).chain(m.fields.iter().zip(&r.fields)) { k &= veq(a, b); } k };
    (res, said, order, vars)
}
