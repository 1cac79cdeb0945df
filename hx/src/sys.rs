//! The environment given to the code under test: a scripted `System` whose clock, randomness, request and command
//! outcomes and incoming messages are chosen by the harness, and which logs everything it is asked to do.
use crate::rt::*;
use alloc::collections::VecDeque;
use alloc::rc::Rc;
use alloc::string::String;
use alloc::vec::Vec;
use core::cell::{Cell, RefCell};
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::gc::*;
use netsblox_vm::json::*;
use netsblox_vm::process::*;
use netsblox_vm::runtime::*;
use netsblox_vm::vecmap::VecMap;

/// an owned snapshot of a value (depth limited, so cyclic lists end in `Deep`)
#[derive(Clone, Debug, PartialEq)]
pub enum V { B(bool), N(f64), T(String), L(Vec<V>), Img(String), Aud(String), C, E(String), Nat(u8), Deep }
pub fn snap(v: &Value<'_, Cu, Sys>) -> V { snap_d(v, 6) }
fn snap_d(v: &Value<'_, Cu, Sys>, d: usize) -> V {
    if d == 0 { return V::Deep }
    match v {
        Value::Bool(x) => V::B(*x),
        Value::Number(x) => V::N(x.get()),
        Value::Text(x) => V::T(x.as_str().into()),
        Value::Image(x) => V::Img(x.name.as_str().into()),
        Value::Audio(x) => V::Aud(x.name.as_str().into()),
        Value::Native(x) => V::Nat(x.0),
        Value::List(x) => V::L(x.borrow().iter().map(|x| snap_d(x, d - 1)).collect()),
        Value::Closure(_) => V::C,
        Value::Entity(x) => V::E(x.borrow().name.as_str().into()),
    }
}
pub fn n(v: f64) -> V { V::N(v) }
pub fn t(v: &str) -> V { V::T(v.into()) }

#[derive(Debug)]
pub struct Nat(pub u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct NatTy(pub u8);
impl GetType for Nat { type Output = NatTy; fn get_type(&self) -> NatTy { NatTy(self.0) } }

pub struct Cu;
/// entity state: what the entity was built from
pub struct St { pub kind: u8, pub props: Properties, pub parent: String, pub level: usize, pub mark: f64 }
impl<'gc, 'a> From<EntityKind<'gc, 'a, Cu, Sys>> for St {
    fn from(k: EntityKind<'gc, 'a, Cu, Sys>) -> St {
        match k {
            EntityKind::Stage { props } => St { kind: 0, props, parent: String::new(), level: 0, mark: 0.0 },
            EntityKind::Sprite { props } => St { kind: 1, props, parent: String::new(), level: 0, mark: 0.0 },
            EntityKind::Clone { parent } => St { kind: 2, props: Properties::default(), parent: parent.name.as_str().into(), level: parent.state.level + 1, mark: parent.state.mark },
        }
    }
}
/// process state: a counter that system calls may push on, restored by unwinding
pub struct PSt { pub depth: usize, pub unwinds: usize, pub had_parent: bool, pub mark: f64, pub line: Vec<Link> }
/// what a state was made for: the entity (its name, how often removed from a sprite of the project, its mark) and the mark of the process that asked for it
#[derive(Debug, Clone, PartialEq)]
pub struct Link { pub name: String, pub level: usize, pub own: f64, pub by: f64 }
impl PSt { pub fn new() -> PSt { PSt { depth: 0, unwinds: 0, had_parent: false, mark: 0.0, line: Vec::new() } } }
impl<'gc, 'a> From<ProcessKind<'gc, 'a, Cu, Sys>> for PSt {
    fn from(k: ProcessKind<'gc, 'a, Cu, Sys>) -> PSt {
        let e = k.entity.borrow();
        let mut line = match k.dispatcher { Some(d) => d.state.line.clone(), None => Vec::new() };
        line.push(Link { name: e.name.as_str().into(), level: e.state.level, own: e.state.mark, by: match k.dispatcher { Some(d) => d.state.mark, None => -1.0 } });
        PSt { depth: 0, unwinds: 0, had_parent: k.dispatcher.is_some(), mark: 0.0, line }
    }
}
impl Unwindable for PSt {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.depth }
    fn unwind_to(&mut self, p: &usize) { self.depth = *p; self.unwinds += 1; }
}
pub struct Inter(pub SimpleValue);
impl From<SimpleValue> for Inter { fn from(x: SimpleValue) -> Inter { Inter(x) } }
// the harness is single threaded; the bound is only there for async systems
unsafe impl Send for Inter {}
impl CustomTypes<Sys> for Cu {
    type NativeValue = Nat; type Intermediate = Inter; type EntityState = St; type ProcessState = PSt;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter) -> Value<'gc, Cu, Sys> { Value::from_simple(mc, v.0) }
}

/// something the machine asked its system to do
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Input(Option<V>), Syscall(String, Vec<V>), Rpc(Option<String>, String, String, Vec<(String, V)>), GetProp(u8), Unknown(String, Vec<V>),
    Print(u8, Option<V>), SetProp(u8, V), ChangeProp(u8, V), ClearEffects, ClearDrawings, SetCostume(Option<String>), PlaySound(String, bool), PlayNotes(Vec<u8>, f64, bool), StopSounds,
    GotoXY(f64, f64), GotoEntity(String), PointXY(f64, f64), PointEntity(String), Forward(f64),
    Send(String, Vec<(String, V)>, Vec<String>, bool), Reply(String, String, V),
}
pub enum Poll { Pending, Ok(SimpleValue), Err(&'static str), HardErr }
/// how a request or command that a system hands on was completed
#[derive(Clone, Debug, PartialEq)]
pub enum Done { Value(V), Ok, Err }
pub type Sink = Rc<RefCell<Option<Done>>>;
pub struct Key_(pub usize, pub Option<Sink>);
impl Key<Result<Inter, CompactString>> for Key_ { fn complete(self, x: Result<Inter, CompactString>) { if let Some(s) = self.1 { *s.borrow_mut() = Some(match x { Ok(x) => Done::Value(simple(&x.0)), Err(_) => Done::Err }) } } }
impl Key<Result<(), CompactString>> for Key_ { fn complete(self, x: Result<(), CompactString>) { if let Some(s) = self.1 { *s.borrow_mut() = Some(if x.is_ok() { Done::Ok } else { Done::Err }) } } }
fn simple(x: &SimpleValue) -> V {
    match x {
        SimpleValue::Bool(x) => V::B(*x), SimpleValue::Number(x) => V::N(x.get()), SimpleValue::Text(x) => V::T(x.as_str().into()),
        SimpleValue::List(x) => V::L(x.iter().map(simple).collect()), SimpleValue::Image(x) => V::Img(x.name.as_str().into()), SimpleValue::Audio(x) => V::Aud(x.name.as_str().into()),
    }
}

#[derive(Default)]
pub struct Sys {
    pub now: Cell<u64>,
    pub timeless: Cell<bool>,
    /// when set, the clock is a calendar
    pub real: Cell<Option<netsblox_vm::real_time::OffsetDateTime>>,
    /// when set, every read of the clock takes the next of these
    pub times: RefCell<VecDeque<u64>>,
    pub log: RefCell<Vec<Ev>>,
    pub who: RefCell<Vec<String>>,
    /// outcomes of successive polls of requests and commands, in order; exhausted = immediate success with 0
    pub polls: RefCell<VecDeque<Poll>>,
    /// when not empty: request or command number k is pending for this many polls, then succeeds with 100 + k
    pub delays: RefCell<Vec<usize>>,
    pub inbox: RefCell<VecDeque<IncomingMessage>>,
    pub replies: RefCell<VecDeque<Option<Option<Json>>>>,
    pub refuse: Cell<bool>,
    pub keys: Cell<usize>,
    pub draws: Cell<usize>,
    pub polled: RefCell<Vec<usize>>,
    /// when given, what every draw of the random source gives
    pub draw: Cell<Option<u64>>,
    /// when set, sizes of pens are marks of processes, sizes of entities marks of theirs, and who says something is written down
    pub marks: Cell<bool>,
    pub lines: RefCell<Vec<(V, Vec<Link>)>>,
}
/// `k` values spread evenly over what the random source can give
pub fn spread(k: usize) -> impl Iterator<Item = u64> { (0..k).map(move |i| ((((2 * i + 1) as u128) << 63) / k as u128) as u64) }
pub struct Draw<'a>(&'a Sys);
impl rand::RngCore for Draw<'_> {
    fn next_u32(&mut self) -> u32 { self.0.draws.set(self.0.draws.get() + 1); match self.0.draw.get() { Some(x) => (x >> 32) as u32, None => any_u32() } }
    fn next_u64(&mut self) -> u64 { self.0.draws.set(self.0.draws.get() + 1); match self.0.draw.get() { Some(x) => x, None => any_u64() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = any_u8() } }
}
fn prop(p: Property) -> u8 { p as u8 }
fn st(x: &CompactString) -> String { x.as_str().into() }
impl Sys {
    pub fn new() -> Rc<Sys> { Rc::new(Sys::default()) }
    fn key(&self) -> Key_ { let k = self.keys.get(); self.keys.set(k + 1); Key_(k, None) }
    /// the system may look at and change everything while it is asked, except a sprite that is lent to it
    fn free<'gc>(mc: &Mutation<'gc>, p: &Process<'gc, Cu, Sys>, lent: Option<*const Entity<'gc, Cu, Sys>>) {
        let value = |x: &Value<'gc, Cu, Sys>| match x { Value::List(x) => { x.borrow_mut(mc); } Value::Closure(x) => { x.borrow_mut(mc); } Value::Entity(x) => if Some(x.as_ptr() as *const _) != lent { x.borrow_mut(mc); }, _ => () };
        let symbols = |x: &SymbolTable<'gc, Cu, Sys>| for x in x.iter() { value(&x.1.get()) };
        let entity = |x: &Gc<'gc, RefLock<Entity<'gc, Cu, Sys>>>| if Some(x.as_ptr() as *const _) != lent {
            let fields: Vec<_> = x.borrow_mut(mc).fields.iter().map(|x| x.1.get().clone()).collect();
            for x in &fields { value(x) }
        };
        let g = p.global_context.borrow_mut(mc);
        symbols(&g.globals);
        for x in p.get_call_stack() { symbols(&x.locals); entity(&x.entity); }
        for x in g.entities.iter() { entity(&x.1); }
    }
    fn me(&self, p: &Process<'_, Cu, Sys>) { let e = p.get_call_stack().last().unwrap().entity; self.who.borrow_mut().push(e.borrow().name.as_str().into()); }
    fn next(&self, k: usize) -> Option<Poll> {
        let mut d = self.delays.borrow_mut();
        if d.is_empty() { return self.polls.borrow_mut().pop_front() }
        Some(if d[k] > 0 { d[k] -= 1; Poll::Pending } else { Poll::Ok(SimpleValue::Number(Number::new((100 + k) as f64).unwrap())) })
    }
    fn refused(&self) -> Result<(), ErrorCause<Cu, Sys>> { if self.refuse.get() { Err(ErrorCause::NotSupported { feature: Feature::Input }) } else { Ok(()) } }
}
impl System<Cu> for Sys {
    type RequestKey = Key_;
    type CommandKey = Key_;
    fn rand<T: rand::distr::uniform::SampleUniform, R: rand::distr::uniform::SampleRange<T>>(&self, range: R) -> T {
        range.sample_single(&mut Draw(self)).unwrap()
    }
    fn time(&self, _: Precision) -> SysTime {
        if self.timeless.get() { return SysTime::Timeless }
        if let Some(local) = self.real.get() { return SysTime::Real { local } }
        if let Some(x) = self.times.borrow_mut().pop_front() { return SysTime::Arbitrary { ms: x } }
        SysTime::Arbitrary { ms: self.now.get() }
    }
    fn perform_request<'gc>(&self, mc: &Mutation<'gc>, r: Request<'gc, Cu, Self>, p: &mut Process<'gc, Cu, Self>) -> Result<Key_, ErrorCause<Cu, Self>> {
        Self::free(mc, p, None);
        self.refused()?;
        self.me(p);
        p.state.depth += 1;
        self.log.borrow_mut().push(match r {
            Request::Input { prompt } => Ev::Input(prompt.as_ref().map(snap)),
            Request::Syscall { name, args } => Ev::Syscall(st(&name), args.iter().map(snap).collect()),
            Request::Rpc { host, service, rpc, args } => Ev::Rpc(host.as_ref().map(st), st(&service), st(&rpc), args.iter().map(|(k, v)| (st(k), snap(v))).collect()),
            Request::Property { prop: x } => Ev::GetProp(prop(x)),
            Request::UnknownBlock { name, args } => Ev::Unknown(st(&name), args.iter().map(snap).collect()),
        });
        Ok(self.key())
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, k: &Key_, p: &mut Process<'gc, Cu, Self>) -> Result<AsyncResult<Result<Value<'gc, Cu, Self>, CompactString>>, ErrorCause<Cu, Self>> {
        self.polled.borrow_mut().push(k.0);
        let x = self.next(k.0);
        if !matches!(x, Some(Poll::Pending)) && p.state.depth > 0 { p.state.depth -= 1 }
        match x {
            Some(Poll::Pending) => Ok(AsyncResult::Pending),
            Some(Poll::Ok(x)) => Ok(AsyncResult::Completed(Ok(Value::from_simple(mc, x)))),
            Some(Poll::Err(x)) => Ok(AsyncResult::Completed(Err(x.into()))),
            Some(Poll::HardErr) => Err(ErrorCause::Custom { msg: "hard".into() }),
            None => Ok(AsyncResult::Completed(Ok(Number::new(0.0).unwrap().into()))),
        }
    }
    fn perform_command<'gc>(&self, mc: &Mutation<'gc>, c: Command<'gc, '_, Cu, Self>, p: &mut Process<'gc, Cu, Self>) -> Result<Key_, ErrorCause<Cu, Self>> {
        Self::free(mc, p, match &c { Command::GotoEntity { target } | Command::PointTowardsEntity { target } => Some(*target as *const _), _ => None });
        self.refused()?;
        if self.marks.get() {
            match &c {
                Command::Print { value: Some(v), .. } => self.lines.borrow_mut().push((snap(v), p.state.line.clone())),
                Command::SetProperty { prop: Property::PenSize, value: Value::Number(x) } => p.state.mark = x.get(),
                Command::SetProperty { prop: Property::Size, value: Value::Number(x) } => p.get_call_stack().last().unwrap().entity.borrow_mut(mc).state.mark = x.get(),
                _ => (),
            }
            return Ok(self.key());
        }
        self.me(p);
        self.log.borrow_mut().push(match c {
            Command::Print { style, value } => Ev::Print(style as u8, value.as_ref().map(snap)),
            Command::SetProperty { prop: x, value } => Ev::SetProp(prop(x), snap(&value)),
            Command::ChangeProperty { prop: x, delta } => Ev::ChangeProp(prop(x), snap(&delta)),
            Command::ClearEffects => Ev::ClearEffects,
            Command::ClearDrawings => Ev::ClearDrawings,
            Command::SetCostume => Ev::SetCostume(p.get_call_stack().last().unwrap().entity.borrow().costume.as_ref().map(|x| st(&x.name))),
            Command::PlaySound { sound, blocking } => Ev::PlaySound(st(&sound.name), blocking),
            Command::PlayNotes { notes, beats, blocking } => Ev::PlayNotes(notes.iter().map(|x| x.get_midi().0).collect(), beats.get(), blocking),
            Command::StopSounds => Ev::StopSounds,
            Command::GotoXY { x, y } => Ev::GotoXY(x.get(), y.get()),
            Command::GotoEntity { target } => Ev::GotoEntity(target.name.as_str().into()),
            Command::PointTowardsXY { x, y } => Ev::PointXY(x.get(), y.get()),
            Command::PointTowardsEntity { target } => Ev::PointEntity(target.name.as_str().into()),
            Command::Forward { distance } => Ev::Forward(distance.get()),
        });
        Ok(self.key())
    }
    fn poll_command<'gc>(&self, _: &Mutation<'gc>, k: &Key_, _: &mut Process<'gc, Cu, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<Cu, Self>> {
        self.polled.borrow_mut().push(k.0);
        let x = self.next(k.0);
        match x {
            Some(Poll::Pending) => Ok(AsyncResult::Pending),
            Some(Poll::Err(x)) => Ok(AsyncResult::Completed(Err(x.into()))),
            Some(Poll::HardErr) => Err(ErrorCause::Custom { msg: "hard".into() }),
            _ => Ok(AsyncResult::Completed(Ok(()))),
        }
    }
    fn send_message(&self, m: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> Result<Option<ExternReplyKey>, ErrorCause<Cu, Self>> {
        self.refused()?;
        self.who.borrow_mut().push(String::new());
        self.log.borrow_mut().push(Ev::Send(st(&m), values.iter().map(|(k, v)| (st(k), jv(v))).collect(), targets.iter().map(st).collect(), expect_reply));
        Ok(if expect_reply { Some(ExternReplyKey { request_id: "rq".into() }) } else { None })
    }
    fn poll_reply(&self, _: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        match self.replies.borrow_mut().pop_front() { Some(Some(x)) => AsyncResult::Completed(x), Some(None) => AsyncResult::Pending, None => AsyncResult::Completed(None) }
    }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<Cu, Self>> {
        self.who.borrow_mut().push(String::new());
        self.log.borrow_mut().push(Ev::Reply(st(&key.src_id), st(&key.request_id), jv(&value)));
        Ok(())
    }
    fn receive_message(&self) -> Option<IncomingMessage> { self.inbox.borrow_mut().pop_front() }
}
/// what a system receives as JSON
pub fn jv(v: &Json) -> V {
    match v {
        Json::Null => V::Deep,
        Json::Bool(b) => V::B(*b),
        Json::Number(x) => V::N(x.as_f64().unwrap()),
        Json::String(s) => V::T(s.clone()),
        Json::Array(x) => V::L(x.iter().map(jv).collect()),
        Json::Object(x) => V::L(x.iter().map(|(k, v)| V::L(alloc::vec![V::T(k.clone()), jv(v)])).collect()),
    }
}
