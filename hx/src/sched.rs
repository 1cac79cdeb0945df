//! What whole projects mean: scripts, messages, clones, stopping and waiting, written down as a small model of turns,
//! independently of the project scheduler and the machine.
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::collections::VecDeque; use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::project::{Input, Project, ProjectStep};
use netsblox_vm::runtime::{IncomingMessage, InternReplyKey, KeyCode};
use netsblox_vm::vecmap::VecMap;

#[derive(Clone)]
pub enum E { N(f64), T(&'static str), Var(&'static str), Plus(Box<E>, Box<E>), Msg, Me, Timer }
#[derive(Clone)]
pub enum Tgt { Me, Name(&'static str), Var(&'static str) }
#[derive(Clone, Copy, PartialEq)]
pub enum Mode { This, All, Others, MyOthers }
#[derive(Clone)]
pub enum A {
    Say(E), Inc(&'static str, E), Set(&'static str, E), Local(&'static str),
    Repeat(E, Vec<A>), Forever(Vec<A>), Warp(Vec<A>), If(E, E, Vec<A>, Vec<A>), WaitLess(E, E),
    Send { msg: E, wait: bool, to: Option<Vec<Tgt>> }, Stop(Mode), Ret,
    Clone(&'static str, Tgt), NewClone(Tgt), Delete, On(Tgt, Vec<A>), Fork(Vec<A>),
    Sleep(E), ResetTimer, Throw, Try(Vec<A>, Vec<A>), Reply(E),
}
#[derive(Clone)]
pub enum Ht { Flag, Clone, Key(&'static str), Msg(Option<&'static str>), Net(&'static str, Vec<&'static str>), Custom(&'static str, Vec<&'static str>) }
#[derive(Clone)]
pub struct Sc { pub hat: Ht, pub prog: Vec<A> }
/// an entity: its name, its fields and its scripts
pub struct En { pub name: &'static str, pub fields: Vec<(&'static str, f64)>, pub scripts: Vec<Sc> }
pub struct Proj { pub globals: Vec<(&'static str, f64)>, pub ents: Vec<En> }

// ---- the project as blocks
fn ex(v: &E) -> Expr { match v { E::N(x) => num(*x), E::T(x) => txt(x), E::Var(x) => var(x), E::Plus(a, b) => plus(ex(a), ex(b)), E::Msg => e(X::Message), E::Me => e(X::This), E::Timer => e(X::Timer) } }
fn tg(v: &Tgt) -> Expr { match v { Tgt::Me => e(X::This), Tgt::Name(x) => ent(x), Tgt::Var(x) => var(x) } }
fn block(v: &[A]) -> Vec<Stmt> { v.iter().map(stm).collect() }
fn stm(v: &A) -> Stmt {
    match v {
        A::Say(x) => say(ex(x)),
        A::Inc(k, x) => inc(k, ex(x)),
        A::Set(k, x) => assign(k, ex(x)),
        A::Local(k) => locals(&[k]),
        A::Repeat(n, b) => repeat(ex(n), block(b)),
        A::Forever(b) => forever(block(b)),
        A::Warp(b) => warp(block(b)),
        A::If(l, r, t, f) => ifelse(less(ex(l), ex(r)), block(t), block(f)),
        A::WaitLess(l, r) => s(K::WaitUntil { condition: bx(less(ex(l), ex(r))) }),
        A::Send { msg, wait, to } => s(K::SendLocalMessage { msg_type: bx(ex(msg)), wait: *wait, target: to.as_ref().map(|x| bx(if x.len() == 1 { tg(&x[0]) } else { list(x.iter().map(tg).collect()) })) }),
        A::Stop(m) => s(K::Stop { mode: match m { Mode::This => ast::StopMode::ThisScript, Mode::All => ast::StopMode::All, Mode::Others => ast::StopMode::AllButThisScript, Mode::MyOthers => ast::StopMode::OtherScriptsInSprite } }),
        A::Ret => ret(num(5.0)),
        A::Clone(k, t) => assign(k, e(X::Clone { target: bx(tg(t)) })),
        A::NewClone(t) => s(K::Clone { target: bx(tg(t)) }),
        A::Delete => s(K::DeleteClone),
        A::On(t, b) => s(K::CallClosure { new_entity: Some(bx(tg(t))), closure: bx(clos(&[], &[], block(b))), args: vec![] }),
        A::Fork(b) => s(K::ForkClosure { closure: bx(clos(&[], &[], block(b))), args: vec![] }),
        A::Sleep(x) => s(K::Sleep { seconds: bx(ex(x)) }),
        A::ResetTimer => s(K::ResetTimer),
        A::Throw => throw(txt("thrown")),
        A::Try(b, h) => tryc(block(b), "er", block(h)),
        A::Reply(x) => s(K::SendNetworkReply { value: bx(ex(x)) }),
    }
}
pub fn role_of(p: &Proj) -> Role {
    let mut r = role(vec![], vec![]);
    r.globals = p.globals.iter().map(|(k, v)| vi(k, AV::Number(*v))).collect();
    for en in &p.ents {
        let mut x = entity(en.name);
        x.fields = en.fields.iter().map(|(k, v)| vi(k, AV::Number(*v))).collect();
        x.scripts = en.scripts.iter().map(|sc| script(match &sc.hat {
            Ht::Flag => HatKind::OnFlag, Ht::Clone => HatKind::OnClone,
            Ht::Key(k) => HatKind::OnKey { key: (*k).into() },
            Ht::Msg(m) => HatKind::LocalMessage { msg_type: m.map(|x| x.into()) },
            Ht::Net(m, f) => HatKind::NetworkMessage { msg_type: (*m).into(), fields: f.iter().map(|x| lv(x)).collect() },
            Ht::Custom(m, f) => HatKind::Unknown { name: (*m).into(), fields: f.iter().map(|x| lv(x)).collect() },
        }, block(&sc.prog))).collect();
        r.entities.push(x);
    }
    r
}
// ---- the model
#[derive(Clone)]
enum MV { N(f64), T(String), E(usize) }
type Vars = Vec<(&'static str, MV)>;
struct MEnt { name: &'static str, fields: Vars, root: usize }
#[derive(Clone, Copy, PartialEq)]
enum Wait { No, Barrier(usize), Sleep(u64) }
enum Fr<'p> { Seq(&'p [A], usize), Loop(&'p [A], Option<f64>), Warp, Try(&'p [A]), On, Until(&'p E, &'p E) }
struct Ctx { locals: Vars, barrier: Option<usize>, msg: Option<String>, reply: Option<usize> }
struct Th<'p> { script: Option<usize>, ctx: Ctx, frames: Vec<Fr<'p>>, on: Vec<(usize, Vars)>, first: usize, warp: usize, wait: Wait }
struct MSc<'p> { hat: &'p Ht, prog: &'p [A], ent: usize, gone: bool, thread: Option<usize>, queue: VecDeque<Ctx> }
/// what happened in a turn
#[derive(Clone, PartialEq, Debug)]
pub enum Turn { Idle, Yield, Done(f64), Error }
pub struct Model<'p> { ents: Vec<MEnt>, scripts: Vec<MSc<'p>>, threads: Vec<Option<Th<'p>>>, queue: VecDeque<usize>, globals: Vars, barriers: usize, pub log: Vec<(&'static str, V)>, pub replies: Vec<(usize, V)>, pub now: u64, timer: u64, fuel: usize }
fn look<'a>(v: &'a mut Vars, k: &str) -> Option<&'a mut MV> { v.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1) }
enum Act { Go, Yield, Done(f64), Error, Gone }
impl<'p> Model<'p> {
    pub fn new(p: &'p Proj) -> Self {
        let vars = |v: &Vec<(&'static str, f64)>| v.iter().map(|(k, x)| (*k, MV::N(*x))).collect::<Vars>();
        let mut m = Model { ents: vec![], scripts: vec![], threads: vec![], queue: VecDeque::new(), globals: vars(&p.globals), barriers: 0, log: vec![], replies: vec![], now: 0, timer: 0, fuel: 400 };
        for (i, en) in p.ents.iter().enumerate() {
            m.ents.push(MEnt { name: en.name, fields: vars(&en.fields), root: i });
            for sc in &en.scripts { m.scripts.push(MSc { hat: &sc.hat, prog: &sc.prog, ent: i, gone: false, thread: None, queue: VecDeque::new() }); }
        }
        m
    }
    fn alive(&self, s: usize) -> bool { matches!(self.scripts[s].thread, Some(t) if self.threads[t].is_some()) }
    fn launch(&mut self, s: usize, ctx: Ctx) {
        let (prog, ent) = (self.scripts[s].prog, self.scripts[s].ent);
        let locals = ctx.locals.clone();
        self.threads.push(Some(Th { script: Some(s), ctx, frames: vec![Fr::Seq(prog, 0)], on: vec![(ent, locals)], first: ent, warp: 0, wait: Wait::No}));
        let id = self.threads.len() - 1;
        self.scripts[s].thread = Some(id);
        self.queue.push_back(id);
    }
    /// every script that is not running starts what waits for it first
    fn consume(&mut self) {
        for s in 0..self.scripts.len() { if !self.scripts[s].gone && !self.alive(s) { if let Some(c) = self.scripts[s].queue.pop_front() { self.launch(s, c); } } }
    }
    fn kill(&mut self, t: usize) { self.threads[t] = None; }
    fn stop(&mut self, s: usize) { if let Some(t) = self.scripts[s].thread.take() { self.kill(t); } self.scripts[s].queue.clear(); }
    fn schedule(&mut self, s: usize, ctx: Ctx, max: usize) {
        self.scripts[s].queue.push_back(ctx);
        if !self.alive(s) { let c = self.scripts[s].queue.pop_front().unwrap(); self.launch(s, c); }
        if self.scripts[s].queue.len() > max { self.scripts[s].queue.pop_back(); }
    }
    fn plain() -> Ctx { Ctx { locals: vec![], barrier: None, msg: None, reply: None } }
    fn matching(&self, f: impl Fn(&Ht) -> bool) -> Vec<usize> { (0..self.scripts.len()).filter(|s| !self.scripts[*s].gone && f(self.scripts[*s].hat)).collect() }
    pub fn start(&mut self) { let m = self.matching(|h| matches!(h, Ht::Flag)); if !m.is_empty() { self.consume(); } for s in m { self.stop(s); self.schedule(s, Self::plain(), 0); } }
    pub fn key(&mut self, k: &str) { let m = self.matching(|h| matches!(h, Ht::Key(x) if *x == "any key" || hat_key(x) == key_code(k))); if !m.is_empty() { self.consume(); } for s in m { self.schedule(s, Self::plain(), 0); } }
    pub fn custom(&mut self, n: &str, args: &[(&str, f64)], interrupt: bool, max: usize) {
        let m = self.matching(|h| matches!(h, Ht::Custom(x, _) if *x == n));
        if !m.is_empty() { self.consume(); }
        for s in m { let Ht::Custom(_, f) = self.scripts[s].hat else { panic!() }; let c = Ctx { locals: bind(f, args), ..Self::plain() }; if interrupt { self.stop(s); } self.schedule(s, c, max); }
    }
    pub fn net(&mut self, n: &str, args: &[(&str, f64)], reply: Option<usize>) {
        let m = self.matching(|h| matches!(h, Ht::Net(x, _) if *x == n));
        if !m.is_empty() { self.consume(); }
        for s in m { let Ht::Net(_, f) = self.scripts[s].hat else { panic!() }; let c = Ctx { locals: bind(f, args), reply, ..Self::plain() }; self.schedule(s, c, usize::MAX); }
    }
    pub fn halt(&mut self) { for s in 0..self.scripts.len() { self.stop(s); } self.threads.iter_mut().for_each(|x| *x = None); self.queue.clear(); }
    fn held(&self, b: usize) -> bool { self.threads.iter().flatten().any(|t| t.ctx.barrier == Some(b)) || self.scripts.iter().any(|s| s.queue.iter().any(|c| c.barrier == Some(b))) }
    pub fn idle(&self) -> bool { self.threads.iter().all(|x| x.is_none()) }
    pub fn global(&self, k: &str) -> Option<V> { self.globals.iter().find(|x| x.0 == k).map(|x| self.show(&x.1)) }
    fn show(&self, v: &MV) -> V { match v { MV::N(x) => V::N(*x), MV::T(x) => V::T(x.clone()), MV::E(i) => V::E(self.ents[*i].name.into()) } }
    fn th(&mut self, t: usize) -> &mut Th<'p> { self.threads[t].as_mut().unwrap() }
    fn cell(&mut self, t: usize, k: &str) -> Option<&mut MV> {
        let (ent, locals) = self.threads[t].as_mut().unwrap().on.last_mut().unwrap();
        if let Some(x) = look(locals, k) { return Some(x) }
        if let Some(x) = look(&mut self.ents[*ent].fields, k) { return Some(x) }
        look(&mut self.globals, k)
    }
    fn eval(&mut self, t: usize, x: &E) -> Option<MV> {
        Some(match x {
            E::N(x) => MV::N(*x), E::T(x) => MV::T((*x).into()),
            E::Var(k) => self.cell(t, k)?.clone(),
            E::Plus(a, b) => { let (a, b) = (self.eval(t, a)?, self.eval(t, b)?); match (a, b) { (MV::N(a), MV::N(b)) => MV::N(a + b), _ => return None } }
            E::Msg => MV::T(self.th(t).ctx.msg.clone().unwrap_or_default()),
            E::Me => MV::E(self.th(t).on.last().unwrap().0),
            E::Timer => MV::N(self.now.saturating_sub(self.timer) as f64 / 1000.0),
        })
    }
    fn num(&mut self, t: usize, x: &E) -> Option<f64> { match self.eval(t, x)? { MV::N(x) => Some(x), _ => None } }
    fn tgt(&mut self, t: usize, x: &Tgt) -> Option<usize> { match x { Tgt::Me => Some(self.th(t).on.last().unwrap().0), Tgt::Name(n) => self.ents.iter().position(|e| e.name == *n), Tgt::Var(k) => match self.cell(t, k)? { MV::E(i) => Some(*i), _ => None } } }
    /// one turn: the next script runs until it gives way or ends
    pub fn turn(&mut self) -> Turn {
        loop {
            let t = match self.queue.pop_front() { None => return Turn::Idle, Some(t) => t };
            if self.threads[t].is_none() { continue }
            match self.run(t) {
                Act::Yield => { self.consume(); self.queue.push_back(t); return Turn::Yield }
                Act::Done(v) => { self.kill(t); self.consume(); return Turn::Done(v) }
                Act::Error => { self.kill(t); self.consume(); return Turn::Error }
                Act::Gone => continue,
                Act::Go => panic!(),
            }
        }
    }
    fn run(&mut self, t: usize) -> Act {
        loop {
            self.fuel -= 1;
            if self.fuel == 0 { stop() }
            match self.th(t).wait {
                Wait::No => (),
                Wait::Barrier(b) => if self.held(b) { return Act::Yield } else { self.th(t).wait = Wait::No },
                Wait::Sleep(u) => if self.now < u { return Act::Yield } else { self.th(t).wait = Wait::No },
            }
            let r = match self.step(t) { Some(x) => x, None => self.fail(t) };
            if self.threads[t].is_none() { return Act::Gone }
            match r { Act::Go => (), x => return x }
        }
    }
    /// goes to the innermost handler
    fn fail(&mut self, t: usize) -> Act {
        let th = self.th(t);
        loop {
            match th.frames.pop() {
                None => return Act::Error,
                Some(Fr::Try(h)) => { th.frames.push(Fr::Seq(h, 0)); return Act::Go }
                Some(Fr::Warp) => th.warp -= 1,
                Some(Fr::On) => { th.on.pop(); }
                Some(_) => (),
            }
        }
    }
    fn pause(&mut self, t: usize) -> Option<Act> { Some(if self.th(t).warp == 0 { Act::Yield } else { Act::Go }) }
    fn step(&mut self, t: usize) -> Option<Act> {
        let th = self.th(t);
        let a: &'p A = match th.frames.last_mut() {
            None => return Some(Act::Done(0.0)),
            Some(Fr::Seq(p, i)) => if *i < p.len() { *i += 1; let p: &'p [A] = *p; &p[*i - 1] } else {
                th.frames.pop();
                match th.frames.last_mut() {
                    Some(Fr::Loop(_, k)) => { if let Some(k) = k { *k -= 1.0; } return self.pause(t) }
                    Some(Fr::Warp) => { th.frames.pop(); th.warp -= 1; }
                    Some(Fr::Try(_)) => { th.frames.pop(); }
                    Some(Fr::On) => { th.frames.pop(); th.on.pop(); }
                    _ => (),
                }
                return Some(Act::Go)
            },
            Some(Fr::Loop(b, k)) => { let b: &'p [A] = *b; if k.map(|k| k > 0.0).unwrap_or(true) { th.frames.push(Fr::Seq(b, 0)); } else { th.frames.pop(); } return Some(Act::Go) }
            Some(Fr::Until(l, r)) => { let (l, r) = (*l, *r); let (x, y) = (self.num(t, l)?, self.num(t, r)?); if x < y { self.th(t).frames.pop(); return Some(Act::Go) } return self.pause(t) }
            _ => panic!(),
        };
        match a {
            A::Say(x) => { let v = self.eval(t, x)?; let v = self.show(&v); let me = self.th(t).on.last().unwrap().0; let n = self.ents[me].name; self.log.push((n, v)); }
            A::Inc(k, x) => { let d = self.num(t, x)?; match self.cell(t, k)? { MV::N(x) => *x += d, _ => return None } }
            A::Set(k, x) => { let v = self.eval(t, x)?; *self.cell(t, k)? = v; }
            A::Local(k) => { let l = &mut self.th(t).on.last_mut().unwrap().1; match look(l, k) { Some(x) => *x = MV::N(0.0), None => l.push((k, MV::N(0.0))) } }
            A::Repeat(n, b) => { let k = self.num(t, n)?; self.th(t).frames.push(Fr::Loop(b, Some(k))); }
            A::Forever(b) => self.th(t).frames.push(Fr::Loop(b, None)),
            A::Warp(b) => { let th = self.th(t); th.warp += 1; th.frames.push(Fr::Warp); th.frames.push(Fr::Seq(b, 0)); }
            A::If(l, r, y, n) => { let (l, r) = (self.num(t, l)?, self.num(t, r)?); self.th(t).frames.push(Fr::Seq(if l < r { y } else { n }, 0)); }
            A::WaitLess(l, r) => self.th(t).frames.push(Fr::Until(l, r)),
            A::Throw => return None,
            A::Try(b, h) => { let th = self.th(t); th.frames.push(Fr::Try(h)); th.frames.push(Fr::Seq(b, 0)); }
            A::Ret => { if self.th(t).on.len() == 1 { return Some(Act::Done(5.0)) } let th = self.th(t); loop { match th.frames.pop().unwrap() { Fr::On => { th.on.pop(); break } Fr::Warp => th.warp -= 1, _ => () } } }
            A::On(x, b) => { let x = self.tgt(t, x)?; let th = self.th(t); th.on.push((x, vec![])); th.frames.push(Fr::On); th.frames.push(Fr::Seq(b, 0)); }
            A::Sleep(x) => { let ms = self.num(t, x)? * 1000.0; if ms <= 0.0 { return Some(Act::Yield) } let until = self.now.saturating_add(ms as u64); self.th(t).wait = Wait::Sleep(until); }
            A::ResetTimer => self.timer = self.now,
            A::Reply(x) => { let v = self.eval(t, x)?; if let MV::E(_) = v { return None } let v = self.show(&v); if let Some(k) = self.th(t).ctx.reply.take() { self.replies.push((k, v)); } }
            A::Fork(b) => {
                let me = self.th(t).on.last().unwrap().0;
                self.threads.push(Some(Th { script: None, ctx: Self::plain(), frames: vec![Fr::Seq(b, 0)], on: vec![(me, vec![])], first: me, warp: 0, wait: Wait::No }));
                let id = self.threads.len() - 1;
                self.consume();
                self.queue.push_back(id);
            }
            A::Send { msg, wait, to } => {
                let m = match self.eval(t, msg)? { MV::T(x) => x, _ => stop() };
                let to = match to { None => None, Some(x) => Some({ let mut o = vec![]; for x in x { o.push(self.tgt(t, x)?); } o }) };
                let b = self.barriers; self.barriers += 1;
                if *wait { self.th(t).wait = Wait::Barrier(b); }
                let got: Vec<usize> = self.matching(|h| matches!(h, Ht::Msg(None)) || matches!(h, Ht::Msg(Some(x)) if *x == m)).into_iter().filter(|s| to.as_ref().map(|x| x.contains(&self.scripts[*s].ent)).unwrap_or(true)).collect();
                if !got.is_empty() { self.consume(); }
                for s in got { self.stop(s); self.schedule(s, Ctx { locals: vec![], barrier: if *wait { Some(b) } else { None }, msg: Some(m.clone()), reply: None }, 0); }
            }
            A::Stop(m) => match m {
                Mode::This => { self.kill(t); self.consume(); }
                Mode::All => self.halt(),
                Mode::Others => { for k in 0..self.threads.len() { if k != t { self.kill(k); } } }
                Mode::MyOthers => { let me = self.th(t).on.last().unwrap().0; for k in 0..self.threads.len() { if k != t && matches!(&self.threads[k], Some(x) if x.first == me) { self.kill(k); } } }
            },
            A::Clone(..) | A::NewClone(_) => {
                let x = match a { A::Clone(_, x) | A::NewClone(x) => self.tgt(t, x)?, _ => panic!() };
                let root = self.ents[x].root;
                let (name, fields) = (self.ents[x].name, self.ents[x].fields.clone());
                self.ents.push(MEnt { name, fields, root });
                let id = self.ents.len() - 1;
                let mine: Vec<usize> = (0..self.scripts.len()).filter(|s| self.scripts[*s].ent == root).collect();
                let mut first = true;
                for s in mine {
                    let (hat, prog) = (self.scripts[s].hat, self.scripts[s].prog);
                    self.scripts.push(MSc { hat, prog, ent: id, gone: false, thread: None, queue: VecDeque::new() });
                    let new = self.scripts.len() - 1;
                    if matches!(hat, Ht::Clone) { if first { self.consume(); first = false; } self.schedule(new, Self::plain(), 0); }
                }
                if let A::Clone(k, _) = a { *self.cell(t, k)? = MV::E(id); }
            }
            A::Delete => {
                let me = self.th(t).on.last().unwrap().0;
                if self.ents[me].root != me {
                    for s in &mut self.scripts { if s.ent == me { s.gone = true; s.queue.clear(); } }
                    for k in 0..self.threads.len() { if matches!(&self.threads[k], Some(x) if x.first == me) { self.kill(k); } }
                }
            }
        }
        Some(Act::Go)
    }
}
fn bind(f: &[&'static str], args: &[(&str, f64)]) -> Vars { f.iter().map(|k| (*k, MV::N(args.iter().find(|x| x.0 == *k).map(|x| x.1).unwrap_or(0.0)))).collect() }
// ---- the real thing
/// something that happens to a project from outside, between turns
#[derive(Clone)]
pub enum Poke { None, Start, Stop, Key(&'static str), KeyUp(&'static str), Custom(&'static str, Vec<(&'static str, f64)>, bool, usize), Net(&'static str, Vec<(&'static str, f64)>, Option<usize>), Time(u64) }
pub fn key_code(k: &str) -> KeyCode { match k { "space" => KeyCode::Char(' '), "up arrow" => KeyCode::Up, "down arrow" => KeyCode::Down, "left arrow" => KeyCode::Left, "right arrow" => KeyCode::Right, "enter" => KeyCode::Enter, x => KeyCode::Char(x.chars().next().unwrap()) } }
/// hats name letter keys in either case
fn hat_key(k: &str) -> KeyCode { match key_code(k) { KeyCode::Char(c) => KeyCode::Char(c.to_ascii_lowercase()), x => x } }
const REQ: [&str; 4] = ["r0", "r1", "r2", "r3"];
fn simple(v: f64) -> SimpleValue { SimpleValue::Number(Number::new(v).unwrap()) }
fn poke_model(m: &mut Model, p: &Poke) {
    match p {
        Poke::None | Poke::KeyUp(_) => (), Poke::Start => m.start(), Poke::Stop => m.halt(), Poke::Key(k) => m.key(k), Poke::Time(x) => m.now = *x,
        Poke::Custom(n, a, i, q) => m.custom(n, a, *i, *q), Poke::Net(n, a, r) => m.net(n, a, *r),
    }
}
fn poke_real<'gc>(mc: &Mutation<'gc>, p: &mut Project<'gc, Cu, Sys>, sys: &Rc<Sys>, k: &Poke) {
    match k {
        Poke::None => (), Poke::KeyUp(k) => p.input(mc, Input::KeyUp { key: key_code(k) }), Poke::Start => p.input(mc, Input::Start), Poke::Stop => p.input(mc, Input::Stop), Poke::Key(k) => p.input(mc, Input::KeyDown { key: key_code(k) }), Poke::Time(x) => sys.now.set(*x),
        Poke::Custom(n, a, i, q) => { let mut v: VecMap<_, _, false> = VecMap::new(); for (k, x) in a { v.insert((*k).into(), simple(*x)); } p.input(mc, Input::CustomEvent { name: (*n).into(), args: v, interrupt: *i, max_queue: *q }) }
        Poke::Net(n, a, r) => sys.inbox.borrow_mut().push_back(IncomingMessage { msg_type: (*n).into(), values: a.iter().map(|(k, x)| ((*k).into(), simple(*x))).collect(), reply_key: r.map(|r| InternReplyKey { src_id: "src".into(), request_id: REQ[r].into() }) }),
    }
}
/// the turns of the real project
fn real_turn<'gc>(mc: &Mutation<'gc>, p: &mut Project<'gc, Cu, Sys>) -> Option<Turn> {
    for _ in 0..600 {
        return Some(match p.step(mc) {
            ProjectStep::Normal | ProjectStep::Watcher { .. } | ProjectStep::Pause => continue,
            ProjectStep::Idle => Turn::Idle, ProjectStep::Yield => Turn::Yield, ProjectStep::Error { .. } => Turn::Error,
            ProjectStep::ProcessTerminated { result, .. } => match snap(&result) { V::T(_) => Turn::Done(0.0), V::N(x) => Turn::Done(x), _ => Turn::Done(-1.0) },
        })
    }
    None
}
/// runs the project and its model side by side, poking both before each turn; ids 9011…: turns, what was said, replies, variables
pub fn side_by_side(p: &Proj, pokes: &[Poke], turns: usize) {
    let role = role_of(p);
    let sys = Sys::new();
    let mut m = Model::new(p);
    gc(|mc| {
        let (code, init, _, _) = match ByteCode::compile(&role) { Ok(x) => x, Err(_) => panic!("compile") };
        let mut real: Project<Cu, Sys> = Project::from_init(mc, &init, Rc::new(code), Settings::default(), sys.clone());
        let mut seen = 0;
        for i in 0..turns {
            if let Some(k) = pokes.get(i) { poke_model(&mut m, k); poke_real(mc, &mut real, &sys, k); }
            let a = m.turn();
            let b = match real_turn(mc, &mut real) { Some(x) => x, None => { check(false, 9011); return } };
            check(a == b, 9011);
            let log = sys.log.borrow();
            let who = sys.who.borrow();
            let said: Vec<(&String, V)> = log.iter().zip(who.iter()).filter_map(|(e, w)| match e { Ev::Print(_, v) => Some((w, v.clone().unwrap_or(V::T(String::new())))), _ => None }).collect();
            check(said.len() == m.log.len(), 9012);
            for k in seen..said.len().min(m.log.len()) { check(m.log[k].0 == said[k].0.as_str() && veq(&m.log[k].1, &said[k].1), 9012); }
            seen = said.len();
            if a == Turn::Idle && i + 1 >= pokes.len() { break }
        }
        let log = sys.log.borrow();
        let replies: Vec<_> = log.iter().filter_map(|e| match e { Ev::Reply(_, r, v) => Some((r, v)), _ => None }).collect();
        check(replies.len() == m.replies.len(), 9013);
        for (a, b) in replies.iter().zip(&m.replies) { check(a.0.as_str() == REQ[b.0] && veq(a.1, &b.1), 9013); }
        let g = real.get_global_context();
        let g = g.borrow();
        let mut same = true;
        for (k, _) in &p.globals { same &= veq(&snap(&*g.globals.lookup(k).unwrap().get()), &m.global(k).unwrap()); }
        check(same, 9014);
    });
}
