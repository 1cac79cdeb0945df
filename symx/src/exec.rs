//! Forking symbolic executor over the parsed IR.

use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { C(u64), S(Id), X(Rc<W>) }
#[derive(Debug)]
pub enum W { I(u128), A(Vec<V>) }

impl V {
    #[inline] fn c(&self) -> Option<u128> { match self { V::C(x) => Some(*x as u128), V::X(w) => match &**w { W::I(x) => Some(*x), _ => None }, V::S(_) => None } }
}

#[derive(Clone)]
pub struct Obj { pub bytes: Vec<u8>, pub sym: Option<Box<FxMap<u32, Id>>>, pub ro: bool }

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

const HEAP: u32 = 0x0100_0000;
const STACK: u32 = 0x2000_0000;

#[derive(Clone)]
pub struct Mem { heap: Vec<Rc<Chunk>>, nheap: u32, stack: Vec<Rc<Obj>>, globals: FxMap<u32, Rc<Obj>>, live: u32 }

pub struct Body { fi: u32, nregs: u32, params: Vec<u32>, blocks: Vec<Vec<I>> }

#[derive(Clone)]
struct Frame { body: Rc<Body>, block: u32, ip: u32, regs: Vec<V>, ret: Option<u32>, mark: usize }

#[derive(Clone)]
pub enum Input { Any(u32, u32), Choice(u32) }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<Id>,
    model: Rc<Model>,
    inputs: Vec<Input>,
    nvars: u32,
    obs: Vec<(u64, V)>,
    covers: Vec<u32>,
    checks: u32,
    steps: u64,
    conc: u32,
}

#[derive(Clone, Debug)]
pub struct PathRec { pub outcome: String, pub inputs: Vec<String>, pub obs: Vec<(u64, u64)>, pub covers: Vec<u32> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub forks: u64, pub steps: u64, pub infeasible: u64,
    pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub fp_queries: u64,
    pub solver_s: f64, pub max_query_s: f64,
    pub checks: u64, pub check_queries: u64, pub sym_branches: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum BI {
    Nop, Assume, Memcpy, Memset, Memcmp, Bcmp, UAddSat, USubSat, SAddSat, SSubSat, FpToSiSat, FpToUiSat,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, Fabs, Ctpop, Ucmp, Scmp, Bswap, UMin, UMax, SMin, SMax, BitRev, IsConst, Fshl, Fshr, Abs, Ctlz, Cttz, IsFpClass, CopySign, Trap,
    Floor, Ceil, TruncF, Round, RoundEven, Sqrt, MinNum, MaxNum, MinimumNum, MaximumNum, FmulAdd, Expect,
    SxAny, SxChoice, SxAssume, SxCheck, SxCover, SxObs, SxPanic, SxAlloc, SxFree, SxSym, SxDone, SxStop,
    LFloor, LCeil, LRound, LTrunc, LFabs, LSqrt, LUnary,
    Defined, Unknown,
}

pub struct Cfg { pub timeout_ms: u32, pub max_steps: u64, pub max_paths: u64, pub max_conc: u32, pub dump: Option<String>, pub deadline: Option<Instant>, pub max_depth: usize, pub shard: (u64, u64) }

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    z3: Z3,
    bodies: Vec<Option<Rc<Body>>>,
    bis: Vec<Option<BI>>,
    gcache: Vec<Option<Rc<Obj>>>,
    kcache: FxMap<u32, V>,
    qcache: FxMap<Vec<Id>, Option<Rc<Model>>>,
    recent: std::collections::VecDeque<Rc<Model>>,
    pub stats: Stats,
    pub cfg: Cfg,
    work: Vec<State>,
    pub paths: Vec<PathRec>,
    pub viols: Vec<PathRec>,
    pub problems: Vec<String>,
    pub covers: FxMap<u32, u64>,
    pub called: Vec<bool>,
    pub check_ids: FxMap<u32, u64>,
    pool: Vec<Vec<V>>,
    zcount: usize,
    ndump: u32,
    pub prefix: Vec<u32>,
}

enum Next { Go, End(String), Dead }

type R<T> = Result<T, Stop>;
/// Why the current instruction could not complete.
enum Stop { Bug(String), Problem(String), Infeasible }

fn vi(w: u32, v: u128) -> V { let v = v & mask(w); if w <= 64 { V::C(v as u64) } else { V::X(Rc::new(W::I(v))) } }

impl Engine {
    pub fn new(m: Module, cfg: Cfg) -> Self {
        let nf = m.funcs.len();
        let ng = m.globals.len();
        Engine {
            m, ar: Arena::new(), z3: Z3::new(), bodies: vec![None; nf], bis: vec![None; nf], gcache: vec![None; ng], kcache: Default::default(),
            qcache: Default::default(), recent: Default::default(), stats: Default::default(), cfg, work: vec![], paths: vec![], viols: vec![], problems: vec![],
            covers: Default::default(), called: vec![false; nf], check_ids: Default::default(), pool: vec![], zcount: 0, ndump: 0, prefix: vec![],
        }
    }

    // ---- values ----
    fn id(&mut self, v: &V, w: u32) -> Id {
        match v {
            V::C(x) => self.ar.konst(w, *x as u128),
            V::S(i) => { debug_assert_eq!(self.ar.w(*i), w); *i }
            V::X(k) => match &**k { W::I(x) => self.ar.konst(w, *x), W::A(_) => panic!("aggregate used as a scalar") },
        }
    }
    fn val(&self, i: Id) -> V { match self.ar.cval(i) { Some(x) => { if self.ar.w(i) <= 64 { V::C(x as u64) } else { V::X(Rc::new(W::I(x))) } } None => V::S(i) } }
    fn agg<'a>(&self, v: &'a V) -> &'a [V] { match v { V::X(k) => match &**k { W::A(a) => a, _ => panic!("not an aggregate") }, _ => panic!("not an aggregate") } }

    fn kval(&mut self, t: TyId, k: &K) -> V {
        match (self.m.tys[t as usize].clone(), k) {
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, _) => { let w = self.m.width(t); match k { K::I(x) => vi(w, *x), K::Z => vi(w, 0), _ => panic!() } }
            (Ty::Arr(n, e), K::Z) => { let z = self.kval(e, &K::Z); V::X(Rc::new(W::A(vec![z; n as usize]))) }
            (Ty::Vec(n, e), K::Z) => { let z = self.kval(e, &K::Z); V::X(Rc::new(W::A(vec![z; n as usize]))) }
            (Ty::Struct(fs, _), K::Z) => { let v = fs.iter().map(|f| self.kval(*f, &K::Z)).collect(); V::X(Rc::new(W::A(v))) }
            (Ty::Arr(_, e), K::A(v)) | (Ty::Vec(_, e), K::A(v)) => { let v = v.iter().map(|k| self.kval(e, k)).collect(); V::X(Rc::new(W::A(v))) }
            (Ty::Arr(..), K::B(b)) | (Ty::Vec(..), K::B(b)) => V::X(Rc::new(W::A(b.iter().map(|x| V::C(*x as u64)).collect()))),
            (Ty::Struct(fs, _), K::A(v)) => { let v = fs.iter().zip(v).map(|(f, k)| self.kval(*f, k)).collect(); V::X(Rc::new(W::A(v))) }
            (t, k) => panic!("constant {k:?} of type {t:?}"),
        }
    }
    fn opd(&mut self, st: &State, o: Opd) -> V {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[r as usize].clone(),
            Opd::C(x) => V::C(x),
            Opd::K(k) => {
                if let Some(v) = self.kcache.get(&k) { return v.clone(); }
                let (t, c) = self.m.pool[k as usize].clone();
                let v = self.kval(t, &c);
                self.kcache.insert(k, v.clone());
                v
            }
        }
    }

    // ---- memory ----
    fn kbytes(&self, t: TyId, k: &K, at: usize, out: &mut [u8]) {
        match (&self.m.tys[t as usize], k) {
            (_, K::Z) => (),
            (_, K::B(b)) => out[at..at + b.len()].copy_from_slice(b),
            (_, K::I(x)) => { let n = (self.m.width(t) as usize + 7) / 8; out[at..at + n].copy_from_slice(&x.to_le_bytes()[..n]) }
            (_, K::A(v)) => for (i, k) in v.iter().enumerate() { let (o, e) = self.m.offset(t, i); self.kbytes(e, k, at + o as usize, out) }
        }
    }
    fn global(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = &self.gcache[g as usize] { return o.clone(); }
        let (t, k) = self.m.global_init(g);
        let mut b = vec![0u8; self.m.size(t) as usize];
        self.kbytes(t, &k, 0, &mut b);
        let o = Rc::new(Obj { bytes: b, sym: None, ro: self.m.globals[g as usize].constant });
        self.gcache[g as usize] = Some(o.clone());
        o
    }
    fn obj<'a>(&mut self, st: &'a State, oid: u32) -> R<&'a Obj> where Self: 'a {
        if oid >= STACK { if let Some(o) = st.mem.stack.get((oid - STACK) as usize) { return Ok(o); } return Err(Stop::Bug("access to a dead stack slot".into())); }
        if oid >= HEAP {
            let k = (oid - HEAP) as usize;
            if let Some(c) = st.mem.heap.get(k / CH) { if let Some(Some(o)) = c.get(k % CH) { return Ok(o); } }
            return Err(Stop::Bug("access to freed or unallocated memory".into()));
        }
        if oid >= 1 && (oid as usize) <= self.m.globals.len() {
            let g = oid - 1;
            if let Some(o) = st.mem.globals.get(&g) { return Ok(o); }
            self.global(g);
            // the cache outlives every state borrow: entries are never replaced
            let p: *const Obj = &**self.gcache[g as usize].as_ref().unwrap();
            return Ok(unsafe { &*p });
        }
        Err(Stop::Bug(format!("access through an invalid pointer (object {oid:#x})")))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, oid: u32) -> R<&'a mut Obj> {
        if oid >= STACK { if let Some(o) = st.mem.stack.get_mut((oid - STACK) as usize) { return Ok(Rc::make_mut(o)); } return Err(Stop::Bug("write to a dead stack slot".into())); }
        if oid >= HEAP {
            let k = (oid - HEAP) as usize;
            if let Some(c) = st.mem.heap.get_mut(k / CH) { if let Some(Some(o)) = Rc::make_mut(c).get_mut(k % CH) { return Ok(Rc::make_mut(o)); } }
            return Err(Stop::Bug("write to freed or unallocated memory".into()));
        }
        if oid >= 1 && (oid as usize) <= self.m.globals.len() {
            let g = oid - 1;
            let o = self.global(g);
            if o.ro { return Err(Stop::Bug("write to constant memory".into())); }
            return Ok(Rc::make_mut(st.mem.globals.entry(g).or_insert(o)));
        }
        Err(Stop::Bug(format!("write through an invalid pointer (object {oid:#x})")))
    }
    fn split(p: u64) -> (u32, u32) { ((p >> 32) as u32, p as u32) }

    fn load_bytes(&mut self, st: &State, p: u64, n: u32, w: u32) -> R<V> {
        let (oid, off) = Self::split(p);
        let o = self.obj(st, oid)?;
        let end = off as usize + n as usize;
        if end > o.bytes.len() { return Err(Stop::Bug(format!("out-of-bounds read of {n} bytes at offset {off} of {}", o.bytes.len()))); }
        if let Some(s) = &o.sym {
            let mut any = false;
            for k in 0..n { if s.contains_key(&(off + k)) { any = true; break; } }
            if any {
                // whole-value fast path
                if let Some(&b0) = s.get(&off) {
                    let nd = self.ar.nodes[b0 as usize];
                    if n > 1 && nd.op == Op::Extract && nd.imm == 0 && self.ar.w(nd.a) == n * 8 {
                        let src = nd.a;
                        let ok = (1..n).all(|k| s.get(&(off + k)).map_or(false, |&b| { let x = self.ar.nodes[b as usize]; x.op == Op::Extract && x.a == src && x.imm == 8 * k as u128 }));
                        if ok { let r = if w < n * 8 { self.ar.extract(src, 0, w) } else { src }; return Ok(self.val(r)); }
                    }
                }
                let parts: Vec<Result<Id, u8>> = (0..n).map(|k| match s.get(&(off + k)) { Some(&i) => Ok(i), None => Err(o.bytes[(off + k) as usize]) }).collect();
                let mut acc: Option<Id> = None;
                for p in parts.into_iter() {
                    let b = match p { Ok(i) => i, Err(c) => self.ar.konst(8, c as u128) };
                    acc = Some(match acc { None => b, Some(a) => self.ar.concat(b, a) });
                }
                let r = acc.unwrap();
                let r = if w < n * 8 { self.ar.extract(r, 0, w) } else { r };
                return Ok(self.val(r));
            }
        }
        let b = &o.bytes[off as usize..end];
        if n <= 8 {
            let mut x = [0u8; 8];
            x[..n as usize].copy_from_slice(b);
            let v = u64::from_le_bytes(x);
            Ok(V::C(if w < 64 { v & ((1u64 << w) - 1) } else { v }))
        } else {
            let mut x = [0u8; 16];
            x[..n as usize].copy_from_slice(b);
            Ok(vi(w, u128::from_le_bytes(x)))
        }
    }
    fn load(&mut self, st: &State, t: TyId, p: u64) -> R<V> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(w) => self.load_bytes(st, p, (w + 7) / 8, w),
            Ty::Ptr | Ty::F64 => self.load_bytes(st, p, 8, 64),
            Ty::F32 => self.load_bytes(st, p, 4, 32),
            Ty::Arr(n, _) => { let mut v = vec![]; for i in 0..n { let (o, e) = self.m.offset(t, i as usize); v.push(self.load(st, e, p + o)?); } Ok(V::X(Rc::new(W::A(v)))) }
            Ty::Vec(n, _) => { let mut v = vec![]; for i in 0..n { let (o, e) = self.m.offset(t, i as usize); v.push(self.load(st, e, p + o)?); } Ok(V::X(Rc::new(W::A(v)))) }
            Ty::Struct(fs, _) => { let mut v = vec![]; for i in 0..fs.len() { let (o, e) = self.m.offset(t, i); v.push(self.load(st, e, p + o)?); } Ok(V::X(Rc::new(W::A(v)))) }
            t => panic!("load of {t:?}"),
        }
    }
    fn store_bytes(&mut self, st: &mut State, p: u64, n: u32, w: u32, v: &V) -> R<()> {
        let (oid, off) = Self::split(p);
        let parts: Option<Vec<Id>> = match v {
            V::S(i) => {
                let x = if w < n * 8 { self.ar.zext(*i, n * 8) } else { *i };
                Some((0..n).map(|k| self.ar.extract(x, 8 * k, 8)).collect())
            }
            _ => None,
        };
        let consts: Option<Vec<Option<u128>>> = parts.as_ref().map(|p| p.iter().map(|&i| self.ar.cval(i)).collect());
        let o = self.obj_mut(st, oid)?;
        let end = off as usize + n as usize;
        if end > o.bytes.len() { return Err(Stop::Bug(format!("out-of-bounds write of {n} bytes at offset {off} of {}", o.bytes.len()))); }
        match parts {
            Some(ps) => {
                let cs = consts.unwrap();
                let s = o.sym.get_or_insert_with(Default::default);
                for (k, (i, c)) in ps.into_iter().zip(cs).enumerate() {
                    match c { Some(c) => { s.remove(&(off + k as u32)); o.bytes[off as usize + k] = c as u8; } None => { s.insert(off + k as u32, i); } }
                }
            }
            None => {
                if let Some(s) = &mut o.sym { if !s.is_empty() { for k in 0..n { s.remove(&(off + k)); } if s.is_empty() { o.sym = None; } } else { o.sym = None; } }
                let c = v.c().unwrap();
                o.bytes[off as usize..end].copy_from_slice(&c.to_le_bytes()[..n as usize]);
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, t: TyId, p: u64, v: &V) -> R<()> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(w) => self.store_bytes(st, p, (w + 7) / 8, w, v),
            Ty::Ptr | Ty::F64 => self.store_bytes(st, p, 8, 64, v),
            Ty::F32 => self.store_bytes(st, p, 4, 32, v),
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let a: Vec<V> = self.agg(v).to_vec();
                for (i, x) in a.iter().enumerate() { let (o, e) = self.m.offset(t, i); self.store(st, e, p + o, x)?; }
                Ok(())
            }
            t => panic!("store of {t:?}"),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (so, sf) = Self::split(s);
        let o = self.obj(st, so)?;
        let (a, b) = (sf as usize, sf as usize + n as usize);
        if b > o.bytes.len() { return Err(Stop::Bug(format!("out-of-bounds copy source: {n} bytes at {sf} of {}", o.bytes.len()))); }
        let bytes = o.bytes[a..b].to_vec();
        let syms: Vec<(u32, Id)> = match &o.sym { Some(m) if !m.is_empty() => {
            if (m.len() as u64) < n { m.iter().filter(|(k, _)| (**k as usize) >= a && (**k as usize) < b).map(|(k, i)| (*k - sf, *i)).collect() }
            else { (0..n as u32).filter_map(|k| m.get(&(sf + k)).map(|i| (k, *i))).collect() }
        } _ => vec![] };
        let (dof, df) = Self::split(d);
        let o = self.obj_mut(st, dof)?;
        let (a, b) = (df as usize, df as usize + n as usize);
        if b > o.bytes.len() { return Err(Stop::Bug(format!("out-of-bounds copy target: {n} bytes at {df} of {}", o.bytes.len()))); }
        o.bytes[a..b].copy_from_slice(&bytes);
        if let Some(m) = &mut o.sym { if (m.len() as u64) < n { m.retain(|k, _| (*k as usize) < a || (*k as usize) >= b); } else { for k in a..b { m.remove(&(k as u32)); } } if m.is_empty() { o.sym = None; } }
        if !syms.is_empty() { let m = o.sym.get_or_insert_with(Default::default); for (k, i) in syms { m.insert(df + k, i); } }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> u64 {
        let id = st.mem.nheap;
        st.mem.nheap += 1;
        st.mem.live += 1;
        let k = id as usize;
        if k / CH >= st.mem.heap.len() { st.mem.heap.push(Rc::new(Vec::with_capacity(CH))); }
        let c = Rc::make_mut(&mut st.mem.heap[k / CH]);
        c.push(Some(Rc::new(Obj { bytes: vec![0; n as usize], sym: None, ro: false })));
        ((HEAP + id) as u64) << 32
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        let (oid, off) = Self::split(p);
        if off != 0 || oid < HEAP || oid >= STACK { return Err(Stop::Bug("free of a pointer that is not a heap allocation".into())); }
        let k = (oid - HEAP) as usize;
        let c = match st.mem.heap.get_mut(k / CH) { Some(c) => Rc::make_mut(c), None => return Err(Stop::Bug("bad free".into())) };
        match c.get_mut(k % CH) { Some(s @ Some(_)) => *s = None, _ => return Err(Stop::Bug("double free".into())) }
        st.mem.live -= 1;
        Ok(())
    }

    // ---- solver ----
    fn eval1(&self, st: &State, x: Id) -> u128 { let mut c = Default::default(); self.ar.eval(x, &st.model, &mut c) }

    /// Satisfiability of the path condition together with `extra`; on success the returned model satisfies the whole path condition.
    fn query(&mut self, st: &State, extra: &[Id]) -> R<Option<Rc<Model>>> {
        for &e in extra { if self.ar.cval(e) == Some(0) { return Ok(None); } }
        // independence slicing
        let mut vars: Vec<u32> = extra.iter().flat_map(|&e| self.ar.vars[e as usize].iter().copied()).collect();
        vars.sort_unstable();
        vars.dedup();
        let mut inset = vec![false; st.pc.len()];
        loop {
            let mut changed = false;
            for (k, &c) in st.pc.iter().enumerate() {
                if inset[k] { continue; }
                let cv = self.ar.vars[c as usize].clone();
                if cv.iter().any(|v| vars.binary_search(v).is_ok()) {
                    inset[k] = true;
                    changed = true;
                    for &v in cv.iter() { if let Err(p) = vars.binary_search(&v) { vars.insert(p, v); } }
                }
            }
            if !changed { break; }
        }
        let mut cs: Vec<Id> = st.pc.iter().enumerate().filter(|(k, _)| inset[*k]).map(|x| *x.1).collect();
        cs.extend_from_slice(extra);
        cs.sort_unstable();
        cs.dedup();
        let merge = |m: &Model| -> Rc<Model> {
            let mut r: Model = (*st.model).clone();
            for &v in &vars { match m.get(&v) { Some(x) => { r.insert(v, *x); } None => { r.remove(&v); } } }
            Rc::new(r)
        };
        if let Some(r) = self.qcache.get(&cs) { self.stats.cached += 1; return Ok(r.clone().map(|m| merge(&m))); }
        for k in 0..self.recent.len() {
            let m = self.recent[k].clone();
            let mut cache = Default::default();
            if cs.iter().all(|&c| self.ar.eval(c, &m, &mut cache) == 1) { self.stats.cached += 1; return Ok(Some(merge(&m))); }
        }
        let t0 = Instant::now();
        let dump = self.cfg.dump.clone().map(|d| { self.ndump += 1; format!("{d}/q{:06}.smt2", self.ndump) });
        let mut tmo = self.cfg.timeout_ms;
        if let Some(dl) = self.cfg.deadline { let left = dl.saturating_duration_since(t0).as_millis() as u32; tmo = tmo.min(left.max(1)); }
        let (r, fp) = self.z3.check(&self.ar, &cs, tmo, dump.as_deref());
        if self.z3.n_ast > self.zcount + 400_000 { self.z3 = Z3::new(); self.zcount = 0; }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if fp { self.stats.fp_queries += 1; }
        if dt > self.stats.max_query_s { self.stats.max_query_s = dt; }
        let res = match r {
            Res::Sat(m) => { self.stats.sat += 1; let m = Rc::new(m); self.recent.push_front(m.clone()); self.recent.truncate(24); Some(m) }
            Res::Unsat => { self.stats.unsat += 1; if let Some(d) = &dump { let _ = std::fs::rename(d, d.replace(".smt2", ".unsat.smt2")); } None }
            Res::Unknown => { self.stats.unknown += 1; return Err(Stop::Problem(format!("solver gave no answer within {tmo} ms at {}", self.whereami(st)))); }
        };
        self.qcache.insert(cs, res.clone());
        Ok(res.map(|m| merge(&m)))
    }
    fn whereami(&self, st: &State) -> String {
        st.frames.iter().rev().take(4).map(|f| { let n = demangle(&self.m.funcs[f.body.fi as usize].name); n }).collect::<Vec<_>>().join(" < ")
    }
    fn add_pc(&mut self, st: &mut State, c: Id) {
        if self.ar.cval(c).is_some() { return; }
        // split conjunctions so that slicing sees the parts
        let n = self.ar.nodes[c as usize];
        if n.op == Op::And { self.add_pc(st, n.a); self.add_pc(st, n.b); return; }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    /// Decides a branch condition; when both sides are feasible the state is forked so that the clone takes the other side.
    /// The clone re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: Id) -> R<bool> {
        if let Some(k) = self.ar.cval(c) { return Ok(k != 0); }
        if st.pc.contains(&c) { return Ok(true); }
        let nc = self.ar.not(c);
        if st.pc.contains(&nc) { return Ok(false); }
        self.stats.sym_branches += 1;
        let side = self.eval1(st, c) != 0;
        let (here, there) = if side { (c, nc) } else { (nc, c) };
        if let Some(m) = self.query(st, &[there])? {
            let mut o = st.clone();
            o.model = m;
            self.add_pc(&mut o, there);
            if std::env::var("SYMX_FORKS").is_ok() { eprintln!("FORK {}", self.whereami(st)); }
            self.stats.forks += 1;
            self.work.push(o);
        }
        self.add_pc(st, here);
        Ok(side)
    }
    /// Picks the value of a symbolic word on this path, leaving the remaining values to a clone.
    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(i) => {
                let x = self.eval1(st, *i);
                let k = self.ar.konst(w, x);
                let c = self.ar.bin(Op::Eq, *i, k);
                if st.conc > self.cfg.max_conc { return Err(Stop::Problem(format!("more than {} values for one symbolic word at {}", self.cfg.max_conc, self.whereami(st)))); }
                st.conc += 1;
                let ok = self.decide(st, c)?;
                debug_assert!(ok);
                st.conc = 0;
                Ok(x as u64)
            }
            V::X(_) => panic!("concretize"),
        }
    }

    fn konst1(&mut self, b: bool) -> Id { self.ar.konst(1, b as u128) }
    // ---- arithmetic ----
    fn fbin(op: Bin) -> Option<Op> { Some(match op { Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => Op::FRem, _ => return None }) }
    fn iop(op: Bin) -> Op {
        match op {
            Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem,
            Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, o => Self::fbin(o).unwrap(),
        }
    }
    fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V) -> V {
        let o = Self::iop(op);
        if let (Some(x), Some(y)) = (a.c(), b.c()) {
            if w <= 64 {
                let (x, y) = (x as u64, y as u64);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                match op {
                    Bin::Add => return V::C(x.wrapping_add(y) & m), Bin::Sub => return V::C(x.wrapping_sub(y) & m), Bin::Mul => return V::C(x.wrapping_mul(y) & m),
                    Bin::And => return V::C(x & y), Bin::Or => return V::C(x | y), Bin::Xor => return V::C(x ^ y),
                    Bin::Shl => return V::C(if y >= w as u64 { 0 } else { (x << y) & m }), Bin::LShr => return V::C(if y >= w as u64 { 0 } else { x >> y }),
                    _ => (),
                }
            }
            return vi(w, eval_op(o, w, w, w, 0, x, y, 0));
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ar.bin(o, x, y);
        self.val(r)
    }
    fn icmp(&mut self, p: IPred, w: u32, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (a.c(), b.c()) {
            let r = match p {
                IPred::Eq => x == y, IPred::Ne => x != y, IPred::Ult => x < y, IPred::Ule => x <= y, IPred::Ugt => x > y, IPred::Uge => x >= y,
                _ => { let (x, y) = (sext(x, w), sext(y, w)); match p { IPred::Slt => x < y, IPred::Sle => x <= y, IPred::Sgt => x > y, _ => x >= y } }
            };
            return V::C(r as u64);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = match p {
            IPred::Eq => self.ar.bin(Op::Eq, x, y),
            IPred::Ne => { let e = self.ar.bin(Op::Eq, x, y); self.ar.not(e) }
            IPred::Ult => self.ar.bin(Op::Ult, x, y), IPred::Ule => self.ar.bin(Op::Ule, x, y), IPred::Ugt => self.ar.bin(Op::Ult, y, x), IPred::Uge => self.ar.bin(Op::Ule, y, x),
            IPred::Slt => self.ar.bin(Op::Slt, x, y), IPred::Sle => self.ar.bin(Op::Sle, x, y), IPred::Sgt => self.ar.bin(Op::Slt, y, x), IPred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.val(r)
    }
    fn fcmp(&mut self, p: FPred, w: u32, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (a.c(), b.c()) {
            let f = |v: u128| if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
            let (x, y) = (f(x), f(y));
            let uno = x.is_nan() || y.is_nan();
            let r = match p {
                FPred::False => false, FPred::True => true, FPred::Ord => !uno, FPred::Uno => uno,
                FPred::Oeq => x == y, FPred::Ogt => x > y, FPred::Oge => x >= y, FPred::Olt => x < y, FPred::Ole => x <= y, FPred::One => !uno && x != y,
                FPred::Ueq => uno || x == y, FPred::Ugt => uno || x > y, FPred::Uge => uno || x >= y, FPred::Ult => uno || x < y, FPred::Ule => uno || x <= y, FPred::Une => x != y,
            };
            return V::C(r as u64);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let nx = self.ar.un(Op::FNan, 1, x, 0);
        let ny = self.ar.un(Op::FNan, 1, y, 0);
        let r = match p {
            FPred::False => self.ar.konst(1, 0),
            FPred::True => self.ar.konst(1, 1),
            FPred::Uno => self.ar.bin(Op::Or, nx, ny),
            FPred::Ord => { let u = self.ar.bin(Op::Or, nx, ny); self.ar.not(u) }
            FPred::Oeq => self.ar.bin(Op::FEq, x, y),
            FPred::Une => { let e = self.ar.bin(Op::FEq, x, y); self.ar.not(e) }
            FPred::Ogt => self.ar.bin(Op::FLt, y, x), FPred::Oge => self.ar.bin(Op::FLe, y, x), FPred::Olt => self.ar.bin(Op::FLt, x, y), FPred::Ole => self.ar.bin(Op::FLe, x, y),
            FPred::Ule => { let t = self.ar.bin(Op::FLt, y, x); self.ar.not(t) } FPred::Ult => { let t = self.ar.bin(Op::FLe, y, x); self.ar.not(t) }
            FPred::Uge => { let t = self.ar.bin(Op::FLt, x, y); self.ar.not(t) } FPred::Ugt => { let t = self.ar.bin(Op::FLe, x, y); self.ar.not(t) }
            FPred::One => { let l = self.ar.bin(Op::FLt, x, y); let g = self.ar.bin(Op::FLt, y, x); self.ar.bin(Op::Or, l, g) }
            FPred::Ueq => { let l = self.ar.bin(Op::FLt, x, y); let g = self.ar.bin(Op::FLt, y, x); let o = self.ar.bin(Op::Or, l, g); self.ar.not(o) }
        };
        self.val(r)
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, a: &V) -> V {
        if let Some(x) = a.c() {
            let r = match k {
                Cast::Trunc | Cast::ZExt | Cast::Bits => x,
                Cast::SExt => sext(x, fw) as u128,
                Cast::FpTrunc | Cast::FpExt => eval_op(Op::FCvt, tw, fw, 0, 0, x, 0, 0),
                Cast::FpToSi => eval_op(Op::FToS, tw, fw, 0, 0, x, 0, 0),
                Cast::FpToUi => eval_op(Op::FToU, tw, fw, 0, 0, x, 0, 0),
                Cast::SiToFp => eval_op(Op::SToF, tw, fw, 0, 0, x, 0, 0),
                Cast::UiToFp => eval_op(Op::UToF, tw, fw, 0, 0, x, 0, 0),
            };
            return vi(tw, r);
        }
        let x = self.id(a, fw);
        let r = match k {
            Cast::Trunc => self.ar.extract(x, 0, tw),
            Cast::ZExt => self.ar.zext(x, tw),
            Cast::SExt => self.ar.sext(x, tw),
            Cast::Bits => x,
            Cast::FpTrunc | Cast::FpExt => self.ar.un(Op::FCvt, tw, x, 0),
            Cast::FpToSi => self.ar.un(Op::FToS, tw, x, 0),
            Cast::FpToUi => self.ar.un(Op::FToU, tw, x, 0),
            Cast::SiToFp => self.ar.un(Op::SToF, tw, x, 0),
            Cast::UiToFp => self.ar.un(Op::UToF, tw, x, 0),
        };
        self.val(r)
    }
    fn lanes(&self, t: TyId) -> Option<(u32, TyId)> { match self.m.tys[t as usize] { Ty::Vec(n, e) => Some((n, e)), _ => None } }
    fn map2(&mut self, t: TyId, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, TyId, &V, &V) -> V) -> V {
        match self.lanes(t) {
            Some((_, e)) => { let (x, y) = (self.agg(a).to_vec(), self.agg(b).to_vec()); let v = x.iter().zip(&y).map(|(p, q)| f(self, e, p, q)).collect(); V::X(Rc::new(W::A(v))) }
            None => f(self, t, a, b),
        }
    }
    fn map1(&mut self, from: TyId, to: TyId, a: &V, f: &mut dyn FnMut(&mut Self, TyId, TyId, &V) -> V) -> V {
        match (self.lanes(from), self.lanes(to)) {
            (Some((_, e)), Some((_, g))) => { let x = self.agg(a).to_vec(); let v = x.iter().map(|p| f(self, e, g, p)).collect(); V::X(Rc::new(W::A(v))) }
            _ => f(self, from, to, a),
        }
    }
    fn bitcast(&mut self, from: TyId, to: TyId, a: &V) -> V {
        match (self.lanes(from), self.lanes(to)) {
            (None, None) => a.clone(),
            (Some((n, e)), Some((m, g))) if n == m && self.m.width(e) == self.m.width(g) => a.clone(),
            (lf, lt) => {
                let whole: Id = match lf {
                    Some((_, e)) => { let w = self.m.width(e); let x = self.agg(a).to_vec(); let mut acc: Option<Id> = None; for v in &x { let i = self.id(v, w); acc = Some(match acc { None => i, Some(p) => self.ar.concat(i, p) }); } acc.unwrap() }
                    None => { let w = self.m.width(from); self.id(a, w) }
                };
                match lt {
                    Some((m, g)) => { let w = self.m.width(g); let v = (0..m).map(|k| { let i = self.ar.extract(whole, k * w, w); self.val(i) }).collect(); V::X(Rc::new(W::A(v))) }
                    None => self.val(whole),
                }
            }
        }
    }
    fn ite(&mut self, w: u32, c: Id, a: &V, b: &V) -> V { let (x, y) = (self.id(a, w), self.id(b, w)); let r = self.ar.ite(c, x, y); self.val(r) }

    // ---- running ----
    fn body(&mut self, f: u32) -> Option<Rc<Body>> {
        if let Some(b) = &self.bodies[f as usize] { return Some(b.clone()); }
        if !self.m.funcs[f as usize].defined { return None; }
        self.m.load(f);
        let fu = &mut self.m.funcs[f as usize];
        let b = Rc::new(Body { fi: f, nregs: fu.nregs, params: std::mem::take(&mut fu.params), blocks: std::mem::take(&mut fu.blocks) });
        self.bodies[f as usize] = Some(b.clone());
        Some(b)
    }
    fn builtin(&mut self, f: u32) -> BI {
        if let Some(b) = self.bis[f as usize] { return b; }
        let n = self.m.funcs[f as usize].name.clone();
        let p = |s: &str| n.starts_with(s);
        let b = if self.m.funcs[f as usize].defined {
            if let Some(k) = n.find("4libm4math") {
                let t = &n[k..];
                let leaf = |s: &str| t == format!("4libm4math{0}{1}{0}{1}", s.len(), s);
                if leaf("floor") { BI::LFloor } else if leaf("ceil") { BI::LCeil } else if leaf("round") { BI::LRound } else if leaf("trunc") { BI::LTrunc } else if leaf("fabs") { BI::LFabs } else if leaf("sqrt") { BI::LSqrt }
                else if ["sin", "cos", "tan", "asin", "acos", "atan", "atan2", "log", "log2", "log10", "exp", "pow"].iter().any(|s| leaf(s)) { BI::LUnary }
                else { BI::Defined }
            } else { BI::Defined }
        }
        else if p("llvm.lifetime") || p("llvm.experimental.noalias") || p("llvm.dbg") || p("llvm.invariant") || p("llvm.donothing") || p("llvm.prefetch") { BI::Nop }
        else if p("llvm.assume") { BI::Assume }
        else if p("llvm.memcpy") || p("llvm.memmove") { BI::Memcpy }
        else if p("llvm.memset") { BI::Memset }
        else if p("llvm.uadd.sat") { BI::UAddSat } else if p("llvm.usub.sat") { BI::USubSat } else if p("llvm.sadd.sat") { BI::SAddSat } else if p("llvm.ssub.sat") { BI::SSubSat }
        else if p("llvm.fptosi.sat") { BI::FpToSiSat } else if p("llvm.fptoui.sat") { BI::FpToUiSat }
        else if p("llvm.uadd.with") { BI::UAddO } else if p("llvm.usub.with") { BI::USubO } else if p("llvm.umul.with") { BI::UMulO }
        else if p("llvm.sadd.with") { BI::SAddO } else if p("llvm.ssub.with") { BI::SSubO } else if p("llvm.smul.with") { BI::SMulO }
        else if p("llvm.fabs") { BI::Fabs } else if p("llvm.ctpop") { BI::Ctpop } else if p("llvm.ucmp") { BI::Ucmp } else if p("llvm.scmp") { BI::Scmp } else if p("llvm.bswap") { BI::Bswap }
        else if p("llvm.umin") { BI::UMin } else if p("llvm.umax") { BI::UMax } else if p("llvm.smin") { BI::SMin } else if p("llvm.smax") { BI::SMax }
        else if p("llvm.bitreverse") { BI::BitRev } else if p("llvm.is.constant") { BI::IsConst } else if p("llvm.fshl") { BI::Fshl } else if p("llvm.fshr") { BI::Fshr }
        else if p("llvm.abs") { BI::Abs } else if p("llvm.ctlz") { BI::Ctlz } else if p("llvm.cttz") { BI::Cttz } else if p("llvm.is.fpclass") { BI::IsFpClass } else if p("llvm.copysign") { BI::CopySign }
        else if p("llvm.trap") || n == "abort" { BI::Trap }
        else if p("llvm.floor") || n == "floor" || n == "floorf" { BI::Floor } else if p("llvm.ceil") || n == "ceil" || n == "ceilf" { BI::Ceil } else if p("llvm.trunc") || n == "trunc" || n == "truncf" { BI::TruncF } else if p("llvm.roundeven") || p("llvm.rint") || p("llvm.nearbyint") { BI::RoundEven } else if p("llvm.round") || n == "round" || n == "roundf" { BI::Round } else if p("llvm.sqrt") || n == "sqrt" || n == "sqrtf" { BI::Sqrt }
        else if p("llvm.minimumnum") { BI::MinimumNum } else if p("llvm.maximumnum") { BI::MaximumNum }
        else if p("llvm.minnum") { BI::MinNum } else if p("llvm.maxnum") { BI::MaxNum } else if p("llvm.fmuladd") { BI::FmulAdd } else if p("llvm.expect") { BI::Expect }
        else { match n.as_str() {
            "memcpy" | "memmove" => BI::Memcpy, "memset" => BI::Memset, "memcmp" => BI::Memcmp, "bcmp" => BI::Bcmp,
            "sx_any" => BI::SxAny, "sx_choice" => BI::SxChoice, "sx_assume" => BI::SxAssume, "sx_check" => BI::SxCheck, "sx_cover" => BI::SxCover, "sx_obs" => BI::SxObs,
            "sx_panic" => BI::SxPanic, "sx_alloc" => BI::SxAlloc, "sx_free" => BI::SxFree, "sx_symbolic" => BI::SxSym, "sx_done" => BI::SxDone, "sx_stop" => BI::SxStop,
            _ => BI::Unknown,
        } };
        self.bis[f as usize] = Some(b);
        b
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fmap.get(entry.as_bytes()).ok_or(format!("no harness entry point {entry}"))?;
        let body = self.body(f).ok_or("entry not defined")?;
        let regs = vec![V::C(0); body.nregs as usize];
        let st = State {
            frames: vec![Frame { body, block: 0, ip: 0, regs, ret: None, mark: 0 }],
            mem: Mem { heap: vec![], nheap: 0, stack: vec![], globals: Default::default(), live: 0 },
            pc: vec![], model: Default::default(), inputs: vec![], nvars: 0, obs: vec![], covers: vec![], checks: 0, steps: 0, conc: 0,
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.stats.paths >= self.cfg.max_paths { self.problems.push(format!("path limit {} reached", self.cfg.max_paths)); break; }
            if let Some(d) = self.cfg.deadline { if Instant::now() > d { self.problems.push("time limit reached before every path was explored".into()); break; } }
            self.path(&mut st);
            if self.problems.len() > 20 { break; }
        }
        self.work.clear();
        Ok(())
    }
    fn rec(&mut self, st: &State, model: &Model, outcome: &str) -> PathRec {
        let mut cache = Default::default();
        let inputs = st.inputs.iter().map(|i| match i {
            Input::Any(idx, n) => { let v = model.get(idx).copied().unwrap_or(0) & mask(n * 8); let b = v.to_le_bytes(); let mut s = String::from("a"); for k in 0..*n as usize { s.push_str(&format!("{:02x}", b[k])); } s }
            Input::Choice(k) => format!("c{k}"),
        }).collect();
        let obs = st.obs.iter().map(|(k, v)| (*k, match v { V::C(x) => *x, V::S(i) => self.ar.eval(*i, model, &mut cache) as u64, V::X(_) => 0 })).collect();
        PathRec { outcome: outcome.into(), inputs, obs, covers: st.covers.clone() }
    }
    fn path(&mut self, st: &mut State) {
        let start = st.steps;
        let out = loop {
            if st.steps > self.cfg.max_steps { break Next::End("limit".into()); }
            match self.step(st) {
                Ok(Next::Go) => (),
                Ok(x) => break x,
                Err(Stop::Infeasible) => break Next::Dead,
                Err(Stop::Bug(m)) => break Next::End(format!("ub: {m} at {}", self.whereami(st))),
                Err(Stop::Problem(m)) => { self.problems.push(m); break Next::Dead; }
            }
        };
        self.stats.steps += st.steps - start;
        match out {
            Next::Go => unreachable!(),
            Next::Dead => self.stats.infeasible += 1,
            Next::End(o) => {
                self.stats.paths += 1;
                for &c in &st.covers { *self.covers.entry(c).or_default() += 1; }
                let m = st.model.clone();
                let r = self.rec(st, &m, &o);
                if o != "ok" && o != "stop" { if o == "limit" { eprintln!("symx: step limit at {}", self.whereami(st)); } self.viols.push(r.clone()); }
                self.paths.push(r);
            }
        }
        for f in st.frames.drain(..) { if self.pool.len() < 64 { self.pool.push(f.regs); } }
    }

    #[inline]
    fn set(st: &mut State, d: u32, v: V) { let f = st.frames.last_mut().unwrap(); f.regs[d as usize] = v; }
    fn jump(&mut self, st: &mut State, t: &Target) {
        match t.copies.len() {
            0 => (),
            1 => { let v = self.opd(st, t.copies[0].1); Self::set(st, t.copies[0].0, v); }
            _ => { let vs: Vec<V> = t.copies.iter().map(|c| self.opd(st, c.1)).collect(); for (c, v) in t.copies.iter().zip(vs) { Self::set(st, c.0, v); } }
        }
        let f = st.frames.last_mut().unwrap();
        f.block = t.block;
        f.ip = 0;
    }
    fn ptr(&mut self, st: &mut State, o: Opd) -> R<u64> {
        match self.opd(st, o) { V::C(x) => Ok(x), v => self.concretize(st, &v, 64) }
    }
    /// Load through a symbolic address: an if-then-else over the cells of the object when every feasible address stays inside it.
    fn load_symbolic(&mut self, st: &mut State, t: TyId, a: Id) -> R<Option<V>> {
        let w = self.m.width(t);
        if w == 0 { return Ok(None); }
        let n = (w + 7) / 8;
        let x = self.eval1(st, a) as u64;
        let (oid, _) = Self::split(x);
        let (size, ro) = match self.obj(st, oid) { Ok(o) => (o.bytes.len() as u64, o.ro), Err(_) => return Ok(None) };
        if size > 4096 || size < n as u64 { return Ok(None); }
        let base = (oid as u64) << 32;
        let (lo, hi) = self.ar.bounds(a);
        let tz = self.tz(a).min(6);
        let cnt = (size - n as u64 + 1 + (1 << tz) - 1) >> tz;
        if cnt > 1100 || (!ro && cnt > 300) { return Ok(None); }
        let bk = self.ar.konst(64, base as u128);
        let d = self.ar.bin(Op::Sub, a, bk);
        let lim = self.ar.konst(64, (size - n as u64) as u128);
        let out = self.ar.bin(Op::Ult, lim, d);
        if self.ar.cval(out) != Some(0) && self.query(st, &[out])?.is_some() { return Ok(None); }
        let mut r: Option<Id> = None;
        let mut k = 0u64;
        let mut prev: Option<Id> = None;
        while k + n as u64 <= size {
            let ad = base + k;
            if (ad as u128) >= lo && (ad as u128) <= hi {
                let v = self.load(st, t, ad)?;
                let v = self.id(&v, w);
                r = Some(match r {
                    None => v,
                    Some(acc) if prev == Some(v) && false => acc,
                    Some(acc) => { let kk = self.ar.konst(64, ad as u128); let c = self.ar.bin(Op::Ult, a, kk); self.ar.ite(c, acc, v) }
                });
                prev = Some(v);
            }
            k += 1 << tz;
        }
        Ok(r.map(|r| self.val(r)))
    }
    /// Number of trailing zero bits certainly present.
    fn tz(&self, a: Id) -> u32 {
        let n = self.ar.nodes[a as usize];
        match n.op {
            Op::Const => if n.imm == 0 { n.w as u32 } else { n.imm.trailing_zeros() },
            Op::Concat => { let lw = self.ar.w(n.b); let z = self.tz(n.b); if z == lw { lw + self.tz(n.a) } else { z } }
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::Mul => self.tz(n.a) + self.tz(n.b),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }

    fn step(&mut self, st: &mut State) -> R<Next> {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let body = fr.body.clone();
        let (blk, ip) = (fr.block as usize, fr.ip as usize);
        let ins = match body.blocks[blk].get(ip) { Some(i) => i, None => return Err(Stop::Problem(format!("fell off a block in {}", self.m.funcs[body.fi as usize].name))) };
        match ins {
            I::Bin { op, ty, d, a, b } => {
                let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                let op = *op;
                let w = self.m.width(*ty);
                let r = if w != 0 { self.bin(op, w, &x, &y) } else { self.map2(*ty, &x, &y, &mut |s, e, p, q| { let w = s.m.width(e); s.bin(op, w, p, q) }) };
                Self::set(st, *d, r);
            }
            I::FNeg { ty, d, a } => {
                let x = self.opd(st, *a);
                let w = self.m.width(*ty);
                let s = vi(w, 1u128 << (w - 1));
                let r = self.bin(Bin::Xor, w, &x, &s);
                Self::set(st, *d, r);
            }
            I::ICmp { p, ty, d, a, b } => {
                let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                let p = *p;
                let w = self.m.width(*ty);
                let r = if w != 0 { self.icmp(p, w, &x, &y) } else { self.map2(*ty, &x, &y, &mut |s, e, a, b| { let w = s.m.width(e); s.icmp(p, w, a, b) }) };
                Self::set(st, *d, r);
            }
            I::FCmp { p, ty, d, a, b } => {
                let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                let p = *p;
                let r = self.map2(*ty, &x, &y, &mut |s, e, a, b| { let w = s.m.width(e); s.fcmp(p, w, a, b) });
                Self::set(st, *d, r);
            }
            I::Cast { k, from, to, d, a } => {
                let x = self.opd(st, *a);
                let k = *k;
                let r = if k == Cast::Bits { self.bitcast(*from, *to, &x) } else { self.map1(*from, *to, &x, &mut |s, f, t, v| { let (fw, tw) = (s.m.width(f), s.m.width(t)); s.cast(k, fw, tw, v) }) };
                Self::set(st, *d, r);
            }
            I::Load { ty, d, p } => {
                let r = match self.opd(st, *p) {
                    V::C(x) => self.load(st, *ty, x)?,
                    V::S(i) => match self.load_symbolic(st, *ty, i)? { Some(v) => v, None => { let x = self.concretize(st, &V::S(i), 64)?; self.load(st, *ty, x)? } },
                    _ => panic!(),
                };
                Self::set(st, *d, r);
            }
            I::Store { ty, v, p } => {
                let x = self.ptr(st, *p)?;
                let v = self.opd(st, *v);
                self.store(st, *ty, x, &v)?;
            }
            I::Gep { d, base, off, idx } => {
                let mut v = self.opd(st, *base);
                if *off != 0 { v = self.bin(Bin::Add, 64, &v, &V::C(*off as u64)); }
                for (o, iw, sc) in idx {
                    let k = self.opd(st, *o);
                    let k = if *iw < 64 { self.cast(Cast::SExt, *iw, 64, &k) } else { k };
                    let k = self.bin(Bin::Mul, 64, &k, &V::C(*sc as u64));
                    v = self.bin(Bin::Add, 64, &v, &k);
                }
                Self::set(st, *d, v);
            }
            I::Alloca { d, size, .. } => {
                let id = STACK + st.mem.stack.len() as u32;
                st.mem.stack.push(Rc::new(Obj { bytes: vec![0; *size as usize], sym: None, ro: false }));
                Self::set(st, *d, V::C((id as u64) << 32));
            }
            I::Select { ty, d, c, cv, a, b } => {
                let cc = self.opd(st, *c);
                let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                let r = if *cv {
                    let (n, e) = self.lanes(*ty).unwrap();
                    let w = self.m.width(e);
                    let (cs, xs, ys) = (self.agg(&cc).to_vec(), self.agg(&x).to_vec(), self.agg(&y).to_vec());
                    let v = (0..n as usize).map(|k| match cs[k].c() { Some(0) => ys[k].clone(), Some(_) => xs[k].clone(), None => { let ci = self.id(&cs[k], 1); self.ite(w, ci, &xs[k], &ys[k]) } }).collect();
                    V::X(Rc::new(W::A(v)))
                } else {
                    match cc {
                        V::C(k) => if k != 0 { x } else { y },
                        V::S(ci) => {
                            let w = self.m.width(*ty);
                            let ptr = self.m.tys[*ty as usize] == Ty::Ptr;
                            // a choice between two fixed words is a position, length or address: keep those concrete
                            let fixed = matches!(self.m.tys[*ty as usize], Ty::Int(64) | Ty::F64) && matches!((&x, &y), (V::C(p), V::C(q)) if p != q);
                            if w == 0 || fixed || ptr && !matches!((&x, &y), (V::C(p), V::C(q)) if p == q) { if self.decide(st, ci)? { x } else { y } }
                            else { self.ite(w, ci, &x, &y) }
                        }
                        _ => panic!(),
                    }
                };
                Self::set(st, *d, r);
            }
            I::Copy { d, a } => { let x = self.opd(st, *a); Self::set(st, *d, x); }
            I::ExtractValue { d, a, path } => {
                let mut v = self.opd(st, *a);
                for &k in path { v = self.agg(&v)[k as usize].clone(); }
                Self::set(st, *d, v);
            }
            I::InsertValue { d, a, v, path, .. } => {
                let x = self.opd(st, *a);
                let n = self.opd(st, *v);
                let r = self.insert(&x, &n, path);
                Self::set(st, *d, r);
            }
            I::ExtractElem { d, a, i } => {
                let x = self.opd(st, *a);
                let i = self.opd(st, *i);
                let k = self.concretize(st, &i, 64)?;
                let r = self.agg(&x)[k as usize].clone();
                Self::set(st, *d, r);
            }
            I::InsertElem { d, a, v, i, .. } => {
                let x = self.opd(st, *a);
                let n = self.opd(st, *v);
                let i = self.opd(st, *i);
                let k = self.concretize(st, &i, 64)?;
                let r = self.insert(&x, &n, &[k as u32]);
                Self::set(st, *d, r);
            }
            I::Shuffle { d, a, b, mask, .. } => {
                let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                let mut all = self.agg(&x).to_vec();
                all.extend_from_slice(self.agg(&y));
                let r = V::X(Rc::new(W::A(mask.iter().map(|&k| all[k as usize].clone()).collect())));
                Self::set(st, *d, r);
            }
            I::Rmw { op, ty, d, p, v } => {
                let a = self.ptr(st, *p)?;
                let n = self.opd(st, *v);
                let old = self.load(st, *ty, a)?;
                let w = self.m.width(*ty);
                let new = match op.as_str() { "xchg" => n, "add" => self.bin(Bin::Add, w, &old, &n), "sub" => self.bin(Bin::Sub, w, &old, &n), "and" => self.bin(Bin::And, w, &old, &n), "or" => self.bin(Bin::Or, w, &old, &n), _ => return Err(Stop::Problem(format!("atomicrmw {op}"))) };
                self.store(st, *ty, a, &new)?;
                Self::set(st, *d, old);
            }
            I::CmpXchg { ty, d, p, c, n } => {
                let a = self.ptr(st, *p)?;
                let (c, n) = (self.opd(st, *c), self.opd(st, *n));
                let old = self.load(st, *ty, a)?;
                let w = self.m.width(*ty);
                let e = self.icmp(IPred::Eq, w, &old, &c);
                let e = match e { V::C(k) => k != 0, V::S(i) => self.decide(st, i)?, _ => panic!() };
                if e { self.store(st, *ty, a, &n)?; }
                Self::set(st, *d, V::X(Rc::new(W::A(vec![old, V::C(e as u64)]))));
            }
            I::Br(t) => { self.jump(st, t); return Ok(Next::Go); }
            I::CondBr(c, a, b) => {
                let k = match self.opd(st, *c) { V::C(k) => k != 0, V::S(i) => self.decide(st, i)?, _ => panic!() };
                self.jump(st, if k { a } else { b });
                return Ok(Next::Go);
            }
            I::Switch { ty, v, def, cases } => {
                let x = self.opd(st, *v);
                match x.c() {
                    Some(k) => { let t = cases.iter().find(|c| c.0 == k).map(|c| &c.1).unwrap_or(def); self.jump(st, t); }
                    None => {
                        let w = self.m.width(*ty);
                        let i = self.id(&x, w);
                        // one decision per distinct target
                        let cur = self.eval1(st, i);
                        let tb = cases.iter().find(|c| c.0 == cur).map(|c| c.1.clone());
                        let key = |t: &Target| (t.block, format!("{:?}", t.copies));
                        let group = |s: &mut Self, t: &Target| { let kk = key(t); let mut acc = s.ar.konst(1, 0); for c in cases { if key(&c.1) == kk { let k = s.ar.konst(w, c.0); let e = s.ar.bin(Op::Eq, i, k); acc = s.ar.bin(Op::Or, acc, e); } } acc };
                        match tb {
                            Some(t) => {
                                let mut c = group(self, &t);
                                if key(&t) == key(def) { let mut any = self.ar.konst(1, 0); for cs in cases { let k = self.ar.konst(w, cs.0); let e = self.ar.bin(Op::Eq, i, k); any = self.ar.bin(Op::Or, any, e); } let n = self.ar.not(any); c = self.ar.bin(Op::Or, c, n); }
                                let ok = self.decide(st, c)?;
                                debug_assert!(ok);
                                self.jump(st, &t);
                            }
                            None => {
                                let mut any = self.ar.konst(1, 0);
                                let dk = key(def);
                                for cs in cases { if key(&cs.1) == dk { continue; } let k = self.ar.konst(w, cs.0); let e = self.ar.bin(Op::Eq, i, k); any = self.ar.bin(Op::Or, any, e); }
                                let c = self.ar.not(any);
                                let ok = self.decide(st, c)?;
                                debug_assert!(ok);
                                self.jump(st, def);
                            }
                        }
                    }
                }
                return Ok(Next::Go);
            }
            I::Ret(v) => {
                let r = v.map(|o| self.opd(st, o));
                let f = st.frames.pop().unwrap();
                st.mem.stack.truncate(f.mark);
                if self.pool.len() < 64 { self.pool.push(f.regs); }
                if st.frames.is_empty() { return Ok(Next::End("ok".into())); }
                if let (Some(d), Some(v)) = (f.ret, r) { Self::set(st, d, v); }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(Next::Go);
            }
            I::Unreachable => return Err(Stop::Bug("unreachable code executed".into())),
            I::Unsupported(s) => return Err(Stop::Problem(format!("unsupported instruction: {}", &s[..s.len().min(200)]))),
            I::Call { d, ret, f, args } => {
                let f = match f {
                    Callee::Fn(f) => *f,
                    Callee::Reg(o) => { let a = self.ptr(st, *o)?; if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.funcs.len() as u64 { return Err(Stop::Bug("call through a bad function pointer".into())); } ((a - FN_BASE) / 16) as u32 }
                };
                let bi = self.builtin(f);
                if bi != BI::Defined {
                    let vs: Vec<V> = args.iter().map(|a| self.opd(st, a.1)).collect();
                    let is_l = matches!(bi, BI::LFloor | BI::LCeil | BI::LRound | BI::LTrunc | BI::LFabs | BI::LSqrt | BI::LUnary);
                    if !(is_l && vs.iter().all(|v| v.c().is_some())) {
                        return self.call_builtin(st, bi, f, *d, *ret, args, vs);
                    }
                }
                let body = match self.body(f) { Some(b) => b, None => return Err(Stop::Problem(format!("call of external function {}", self.m.funcs[f as usize].name))) };
                if st.frames.len() >= self.cfg.max_depth { return Ok(Next::End("depth".into())); }
                self.called[f as usize] = true;
                let mut regs = self.pool.pop().unwrap_or_default();
                regs.clear();
                regs.resize(body.nregs as usize, V::C(0));
                for (k, a) in args.iter().enumerate() { if k < body.params.len() { regs[body.params[k] as usize] = self.opd(st, a.1); } }
                let mark = st.mem.stack.len();
                st.frames.push(Frame { body, block: 0, ip: 0, regs, ret: *d, mark });
                return Ok(Next::Go);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(Next::Go)
    }
    fn insert(&self, x: &V, n: &V, path: &[u32]) -> V {
        if path.is_empty() { return n.clone(); }
        let mut v = self.agg(x).to_vec();
        let k = path[0] as usize;
        v[k] = self.insert(&v[k].clone(), n, &path[1..]);
        V::X(Rc::new(W::A(v)))
    }

    fn overflow(&mut self, op: Bin, signed: bool, w: u32, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (a.c(), b.c()) {
            if w <= 64 {
                let (r, o) = if signed {
                    let (x, y) = (sext(x, w), sext(y, w));
                    let r = match op { Bin::Add => x + y, Bin::Sub => x - y, _ => x * y };
                    (r as u128 & mask(w), sext(r as u128 & mask(w), w) != r)
                } else {
                    match op { Bin::Add => { let r = x + y; (r & mask(w), r > mask(w)) } Bin::Sub => (x.wrapping_sub(y) & mask(w), x < y), _ => { let r = x * y; (r & mask(w), r > mask(w)) } }
                };
                return V::X(Rc::new(W::A(vec![vi(w, r), V::C(o as u64)])));
            } else {
                let (r, o) = if signed {
                    let (x, y) = (x as i128, y as i128);
                    let (r, o) = match op { Bin::Add => x.overflowing_add(y), Bin::Sub => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                    (r as u128, o)
                } else { match op { Bin::Add => x.overflowing_add(y), Bin::Sub => x.overflowing_sub(y), _ => x.overflowing_mul(y) } };
                return V::X(Rc::new(W::A(vec![vi(w, r), V::C(o as u64)])));
            }
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let iop = Self::iop(op);
        let r = self.ar.bin(iop, x, y);
        let o = match (signed, op) {
            (false, Bin::Add) => self.ar.bin(Op::Ult, r, x),
            (false, Bin::Sub) => self.ar.bin(Op::Ult, x, y),
            _ => {
                let ww = if op == Bin::Mul { 2 * w } else { w + 1 };
                assert!(ww <= 128, "wide symbolic overflow check");
                let (p, q) = if signed { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                let full = self.ar.bin(iop, p, q);
                let back = if signed { self.ar.sext(r, ww) } else { self.ar.zext(r, ww) };
                let e = self.ar.bin(Op::Eq, full, back);
                self.ar.not(e)
            }
        };
        let (r, o) = (self.val(r), self.val(o));
        V::X(Rc::new(W::A(vec![r, o])))
    }

    fn call_builtin(&mut self, st: &mut State, bi: BI, f: u32, d: Option<u32>, ret: TyId, args: &[(TyId, Opd)], vs: Vec<V>) -> R<Next> {
        let w0 = if args.is_empty() { 0 } else { self.m.width(args[0].0) };
        let lanes = if args.is_empty() { None } else { self.lanes(args[0].0) };
        if lanes.is_some() && matches!(bi, BI::USubSat | BI::UAddSat | BI::UMin | BI::UMax | BI::SMin | BI::SMax | BI::Abs | BI::Ctpop) { return Err(Stop::Problem(format!("vector intrinsic {}", self.m.funcs[f as usize].name))); }
        let mut res: Option<V> = None;
        match bi {
            BI::Nop | BI::Assume => (),
            BI::Memcpy => {
                let (dp, sp) = (self.concretize(st, &vs[0], 64)?, self.concretize(st, &vs[1], 64)?);
                let wn = self.m.width(args[2].0);
                let n = self.concretize(st, &vs[2], wn)?;
                self.copy(st, dp, sp, n)?;
                res = Some(V::C(dp));
            }
            BI::Memset => {
                let dp = self.concretize(st, &vs[0], 64)?;
                let wn = self.m.width(args[2].0);
                let n = self.concretize(st, &vs[2], wn)?;
                let b = if self.m.width(args[1].0) > 8 { let w = self.m.width(args[1].0); self.cast(Cast::Trunc, w, 8, &vs[1]) } else { vs[1].clone() };
                if let (V::C(c), true) = (&b, n > 0) {
                    let (oid, off) = Self::split(dp);
                    let o = self.obj_mut(st, oid)?;
                    let (a, e) = (off as usize, off as usize + n as usize);
                    if e > o.bytes.len() { return Err(Stop::Bug("out-of-bounds memset".into())); }
                    o.bytes[a..e].fill(*c as u8);
                    if let Some(m) = &mut o.sym { m.retain(|k, _| (*k as usize) < a || (*k as usize) >= e); }
                } else { for k in 0..n { self.store_bytes(st, dp + k, 1, 8, &b)?; } }
                res = Some(V::C(dp));
            }
            BI::Memcmp | BI::Bcmp => {
                let n = self.concretize(st, &vs[2], 64)?;
                if n == 0 { res = Some(V::C(0)); } else {
                    let (p, q) = (self.concretize(st, &vs[0], 64)?, self.concretize(st, &vs[1], 64)?);
                    let mut acc = self.ar.konst(32, 0);
                    let mut xs = Vec::with_capacity(n as usize);
                    for k in 0..n {
                        let (a, b) = (self.load_bytes(st, p + k, 1, 8)?, self.load_bytes(st, q + k, 1, 8)?);
                        // a definite difference ends the comparison
                        if let (V::C(x), V::C(y)) = (&a, &b) { if x != y { xs.push((a, b)); break; } continue; }
                        xs.push((a, b));
                    }
                    for (a, b) in xs.into_iter().rev() {
                        let (x, y) = (self.id(&a, 8), self.id(&b, 8));
                        let e = self.ar.bin(Op::Eq, x, y);
                        let diff = if bi == BI::Bcmp { self.ar.konst(32, 1) } else { let (p, q) = (self.ar.zext(x, 32), self.ar.zext(y, 32)); self.ar.bin(Op::Sub, p, q) };
                        acc = self.ar.ite(e, acc, diff);
                    }
                    res = Some(self.val(acc));
                }
            }
            BI::UAddSat | BI::USubSat => {
                let op = if bi == BI::UAddSat { Bin::Add } else { Bin::Sub };
                let o = self.overflow(op, false, w0, &vs[0], &vs[1]);
                let (r, f) = (self.agg(&o)[0].clone(), self.agg(&o)[1].clone());
                let sat = vi(w0, if bi == BI::UAddSat { mask(w0) } else { 0 });
                let c = self.id(&f, 1);
                res = Some(self.ite(w0, c, &sat, &r));
            }
            BI::SAddSat | BI::SSubSat => {
                let op = if bi == BI::SAddSat { Bin::Add } else { Bin::Sub };
                let o = self.overflow(op, true, w0, &vs[0], &vs[1]);
                let (r, f) = (self.agg(&o)[0].clone(), self.agg(&o)[1].clone());
                let neg = self.icmp(IPred::Slt, w0, &vs[0], &vi(w0, 0));
                let nc = self.id(&neg, 1);
                let sat = self.ite(w0, nc, &vi(w0, 1u128 << (w0 - 1)), &vi(w0, mask(w0 - 1)));
                let c = self.id(&f, 1);
                res = Some(self.ite(w0, c, &sat, &r));
            }
            BI::FpToSiSat | BI::FpToUiSat => {
                let tw = self.m.width(ret);
                let signed = bi == BI::FpToSiSat;
                if let Some(x) = vs[0].c() {
                    let x = if w0 == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                    let r = if signed { let (lo, hi) = (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1); (x as i128).clamp(lo, hi) as u128 } else { (x as u128).min(mask(tw)) };
                    res = Some(vi(tw, r));
                } else {
                    let x = self.id(&vs[0], w0);
                    let fk = |v: f64| if w0 == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
                    let hi = self.ar.konst(w0, fk(if signed { 2f64.powi(tw as i32 - 1) } else { 2f64.powi(tw as i32) }));
                    let lo = self.ar.konst(w0, fk(if signed { -2f64.powi(tw as i32 - 1) } else { 0.0 }));
                    let nan = self.ar.un(Op::FNan, 1, x, 0);
                    let big = self.ar.bin(Op::FLe, hi, x);
                    let small = self.ar.bin(Op::FLe, x, lo);
                    let cv = self.ar.un(if signed { Op::FToS } else { Op::FToU }, tw, x, 0);
                    let kmin = self.ar.konst(tw, if signed { 1u128 << (tw - 1) } else { 0 });
                    let kmax = self.ar.konst(tw, if signed { mask(tw - 1) } else { mask(tw) });
                    let z = self.ar.konst(tw, 0);
                    let r = self.ar.ite(big, kmax, cv);
                    let r = self.ar.ite(small, kmin, r);
                    let r = self.ar.ite(nan, z, r);
                    res = Some(self.val(r));
                }
            }
            BI::UAddO => res = Some(self.overflow(Bin::Add, false, w0, &vs[0], &vs[1])),
            BI::USubO => res = Some(self.overflow(Bin::Sub, false, w0, &vs[0], &vs[1])),
            BI::UMulO => res = Some(self.overflow(Bin::Mul, false, w0, &vs[0], &vs[1])),
            BI::SAddO => res = Some(self.overflow(Bin::Add, true, w0, &vs[0], &vs[1])),
            BI::SSubO => res = Some(self.overflow(Bin::Sub, true, w0, &vs[0], &vs[1])),
            BI::SMulO => res = Some(self.overflow(Bin::Mul, true, w0, &vs[0], &vs[1])),
            BI::Fabs | BI::LFabs => res = Some(self.bin(Bin::And, w0, &vs[0], &vi(w0, mask(w0 - 1)))),
            BI::Expect => res = Some(vs[0].clone()),
            BI::IsConst => res = Some(V::C(0)),
            BI::UMin | BI::UMax | BI::SMin | BI::SMax => {
                let p = match bi { BI::UMin => IPred::Ult, BI::UMax => IPred::Ugt, BI::SMin => IPred::Slt, _ => IPred::Sgt };
                let c = self.icmp(p, w0, &vs[0], &vs[1]);
                let c = self.id(&c, 1);
                res = Some(self.ite(w0, c, &vs[0], &vs[1]));
            }
            BI::Ucmp | BI::Scmp => {
                let (lt, gt) = if bi == BI::Ucmp { (IPred::Ult, IPred::Ugt) } else { (IPred::Slt, IPred::Sgt) };
                let tw = self.m.width(ret);
                let l = self.icmp(lt, w0, &vs[0], &vs[1]);
                let g = self.icmp(gt, w0, &vs[0], &vs[1]);
                let (l, g) = (self.id(&l, 1), self.id(&g, 1));
                let r = self.ite(tw, g, &vi(tw, 1), &vi(tw, 0));
                res = Some(self.ite(tw, l, &vi(tw, mask(tw)), &r));
            }
            BI::Abs => {
                let z = vi(w0, 0);
                let n = self.bin(Bin::Sub, w0, &z, &vs[0]);
                let c = self.icmp(IPred::Slt, w0, &vs[0], &z);
                let c = self.id(&c, 1);
                res = Some(self.ite(w0, c, &n, &vs[0]));
            }
            BI::Ctpop | BI::Ctlz | BI::Cttz | BI::BitRev => {
                if let Some(x) = vs[0].c() {
                    let r = match bi { BI::Ctpop => x.count_ones() as u128, BI::Ctlz => (x.leading_zeros() - (128 - w0)) as u128, BI::Cttz => if x == 0 { w0 as u128 } else { x.trailing_zeros() as u128 }, _ => x.reverse_bits() >> (128 - w0) };
                    res = Some(vi(w0, r));
                } else {
                    let x = self.id(&vs[0], w0);
                    let bits: Vec<Id> = (0..w0).map(|k| self.ar.extract(x, k, 1)).collect();
                    let r = match bi {
                        BI::Ctpop => { let mut a = self.ar.konst(w0, 0); for b in bits { let z = self.ar.zext(b, w0); a = self.ar.bin(Op::Add, a, z); } a }
                        BI::BitRev => { let mut a = bits[w0 as usize - 1]; for k in (0..w0 as usize - 1).rev() { a = self.ar.concat(bits[k], a); } a }
                        BI::Cttz => { let mut a = self.ar.konst(w0, w0 as u128); for k in (0..w0).rev() { let v = self.ar.konst(w0, k as u128); a = self.ar.ite(bits[k as usize], v, a); } a }
                        _ => { let mut a = self.ar.konst(w0, w0 as u128); for k in 0..w0 { let v = self.ar.konst(w0, (w0 - 1 - k) as u128); a = self.ar.ite(bits[k as usize], v, a); } a }
                    };
                    res = Some(self.val(r));
                }
            }
            BI::Bswap => {
                let x = self.id(&vs[0], w0);
                let n = w0 / 8;
                let mut acc = self.ar.extract(x, w0 - 8, 8);
                for k in 1..n { let b = self.ar.extract(x, w0 - 8 - 8 * k, 8); acc = self.ar.concat(b, acc); }
                res = Some(self.val(acc));
            }
            BI::Fshl | BI::Fshr => {
                let s = self.concretize(st, &vs[2], w0)? as u32 % w0;
                let (a, b) = (self.id(&vs[0], w0), self.id(&vs[1], w0));
                let r = if bi == BI::Fshl {
                    if s == 0 { a } else { let h = self.ar.extract(a, 0, w0 - s); let l = self.ar.extract(b, w0 - s, s); self.ar.concat(h, l) }
                } else if s == 0 { b } else { let h = self.ar.extract(a, 0, s); let l = self.ar.extract(b, s, w0 - s); self.ar.concat(h, l) };
                res = Some(self.val(r));
            }
            BI::CopySign => {
                let m = self.bin(Bin::And, w0, &vs[0], &vi(w0, mask(w0 - 1)));
                let s = self.bin(Bin::And, w0, &vs[1], &vi(w0, 1u128 << (w0 - 1)));
                res = Some(self.bin(Bin::Or, w0, &m, &s));
            }
            BI::IsFpClass => {
                let mk = vs[1].c().unwrap() as u32;
                let x = self.id(&vs[0], w0);
                let (eb, mb) = if w0 == 64 { (11, 52) } else { (8, 23) };
                let sign = self.ar.extract(x, w0 - 1, 1);
                let e = self.ar.extract(x, mb, eb);
                let mant = self.ar.extract(x, 0, mb);
                let (zm, ze) = (self.ar.konst(mb, 0), self.ar.konst(eb, 0));
                let oe = self.ar.konst(eb, mask(eb));
                let m0 = self.ar.bin(Op::Eq, mant, zm);
                let e0 = self.ar.bin(Op::Eq, e, ze);
                let e1 = self.ar.bin(Op::Eq, e, oe);
                let nm0 = self.ar.not(m0);
                let q = self.ar.extract(mant, mb - 1, 1);
                let nq = self.ar.not(q);
                let ns = self.ar.not(sign);
                let ne0 = self.ar.not(e0);
                let ne1 = self.ar.not(e1);
                let norm = self.ar.bin(Op::And, ne0, ne1);
                let nan = self.ar.bin(Op::And, e1, nm0);
                let inf = self.ar.bin(Op::And, e1, m0);
                let sub = self.ar.bin(Op::And, e0, nm0);
                let zero = self.ar.bin(Op::And, e0, m0);
                let nan_all = self.ar.un(Op::FNan, 1, x, 0);
                let kk = |e: &mut Self, v: u128| { let k = e.ar.konst(w0, v); e.ar.bin(Op::Eq, x, k) };
                let sb = 1u128 << (w0 - 1);
                let infv = mask(eb) << mb;
                let (pz, nz, pi, ni) = (kk(self, 0), kk(self, sb), kk(self, infv), kk(self, infv | sb));
                let t1 = self.konst1(true);
                let mut terms = vec![];
                let mut mk = mk;
                if mk & 3 == 3 { terms.push((nan_all, t1)); mk &= !3; }
                let pairs = [(nan, nq), (nan, q), (ni, t1), (norm, sign), (sub, sign), (nz, t1), (pz, t1), (sub, ns), (norm, ns), (pi, t1)];
                for (k, p) in pairs.into_iter().enumerate() { if mk >> k & 1 != 0 { terms.push(p); } }
                let _ = (inf, zero);
                let mut acc = self.ar.konst(1, 0);
                for (p, q) in terms { let t = self.ar.bin(Op::And, p, q); acc = self.ar.bin(Op::Or, acc, t); }
                res = Some(self.val(acc));
            }
            BI::Floor | BI::Ceil | BI::TruncF | BI::Round | BI::RoundEven | BI::LFloor | BI::LCeil | BI::LRound | BI::LTrunc => {
                let mode = match bi { BI::TruncF | BI::LTrunc => 0, BI::Floor | BI::LFloor => 1, BI::Ceil | BI::LCeil => 2, BI::Round | BI::LRound => 3, _ => 4 };
                let x = self.id(&vs[0], w0);
                let r = self.ar.un(Op::FRnd, w0, x, mode);
                res = Some(self.val(r));
            }
            BI::Sqrt | BI::LSqrt => { let x = self.id(&vs[0], w0); let r = self.ar.un(Op::FSqrt, w0, x, 0); res = Some(self.val(r)); }
            BI::LUnary => {
                let name = self.m.funcs[f as usize].name.clone();
                let k = TRANS.iter().position(|s| name.ends_with(&format!("4libm4math{0}{1}{0}{1}", s.len(), s))).unwrap();
                let x = self.id(&vs[0], w0);
                let r = if vs.len() == 2 { let y = self.id(&vs[1], w0); self.ar.trans2(w0, x, y, k as u128) } else { self.ar.un(Op::FTrans, w0, x, k as u128) };
                if self.ar.cval(r).is_none() && self.z3.tabled(&self.ar, r).is_none() { return Err(Stop::Problem(format!("transcendental function of a wide argument: {name}"))); }
                res = Some(self.val(r));
            }
            BI::MinNum | BI::MaxNum | BI::MinimumNum | BI::MaximumNum => {
                let min = matches!(bi, BI::MinNum | BI::MinimumNum);
                let c = self.fcmp(if min { FPred::Olt } else { FPred::Ogt }, w0, &vs[0], &vs[1]);
                let n1 = self.fcmp(FPred::Uno, w0, &vs[1], &vs[1]);
                let (c, n1) = (self.id(&c, 1), self.id(&n1, 1));
                let mut c = self.ar.bin(Op::Or, c, n1);
                if matches!(bi, BI::MinimumNum | BI::MaximumNum) {
                    // of two zeros: the negative one is less
                    let eq = self.fcmp(FPred::Oeq, w0, &vs[0], &vs[1]);
                    let eq = self.id(&eq, 1);
                    let neg = self.id(&vs[if min { 0 } else { 1 }], w0);
                    let neg = self.ar.un(Op::Extract, 1, neg, (w0 - 1) as u128);
                    let z = self.ar.bin(Op::And, eq, neg);
                    c = self.ar.bin(Op::Or, c, z);
                }
                res = Some(self.ite(w0, c, &vs[0], &vs[1]));
            }
            BI::Trap => return Ok(Next::End("ub: trap".into())),
            BI::SxAny => {
                let p = self.concretize(st, &vs[0], 64)?;
                let n = self.concretize(st, &vs[1], 64)? as u32;
                let chunks: Vec<u32> = if matches!(n, 1 | 2 | 4 | 8 | 16) { vec![n] } else { vec![1; n as usize] };
                let mut o = 0u64;
                for c in chunks {
                    // numbered by path position and width: the same position may have another width on another path
                    let idx = st.nvars * 8 + c.trailing_zeros();
                    st.nvars += 1;
                    st.inputs.push(Input::Any(idx, c));
                    let v = self.ar.var_at(c * 8, idx);
                    self.store_bytes(st, p + o, c, c * 8, &V::S(v))?;
                    o += c as u64;
                }
            }
            BI::SxChoice => {
                let n = self.concretize(st, &vs[0], 32)? as u32;
                if n == 0 { return Err(Stop::Infeasible); }
                if n > 1 {
                let depth = st.inputs.iter().filter(|i| matches!(i, Input::Choice(_))).count();
                let range: Vec<u32> = if depth < self.prefix.len() { if self.prefix[depth] >= n { return Err(Stop::Infeasible) } vec![self.prefix[depth]] } else { (0..n).collect() };
                for k in range[1..].iter().rev() {
                    let mut o = st.clone();
                    o.inputs.push(Input::Choice(*k));
                    if let Some(d) = d { Self::set(&mut o, d, V::C(*k as u64)); }
                    o.frames.last_mut().unwrap().ip += 1;
                    self.stats.forks += 1;
                    self.work.push(o);
                }
                st.inputs.push(Input::Choice(range[0]));
                res = Some(V::C(range[0] as u64));
                } else { res = Some(V::C(0)) }
            }
            BI::SxAssume => {
                let c = self.id(&vs[0], w0);
                let c = if w0 > 1 { let z = self.ar.konst(w0, 0); let e = self.ar.bin(Op::Eq, c, z); self.ar.not(e) } else { c };
                match self.ar.cval(c) {
                    Some(0) => return Err(Stop::Infeasible),
                    Some(_) => (),
                    None => {
                        if self.eval1(st, c) == 0 { match self.query(st, &[c])? { Some(m) => st.model = m, None => return Err(Stop::Infeasible) } }
                        self.add_pc(st, c);
                    }
                }
            }
            BI::SxCheck => {
                let c = self.id(&vs[0], w0);
                let c = if w0 > 1 { let z = self.ar.konst(w0, 0); let e = self.ar.bin(Op::Eq, c, z); self.ar.not(e) } else { c };
                let id = vs[1].c().unwrap_or(0) as u32;
                self.stats.checks += 1;
                st.checks += 1;
                *self.check_ids.entry(id).or_default() += 1;
                match self.ar.cval(c) {
                    Some(0) => return Ok(Next::End(format!("check {id}"))),
                    Some(_) => (),
                    None => {
                        let nc = self.ar.not(c);
                        if !st.pc.contains(&c) {
                            self.stats.check_queries += 1;
                            let bad = if self.eval1(st, nc) != 0 { Some(st.model.clone()) } else { self.query(st, &[nc])? };
                            if let Some(m) = bad {
                                let r = self.rec(st, &m, &format!("check {id}"));
                                self.viols.push(r);
                                // continue on the side where the assertion holds
                                if self.eval1(st, c) == 0 { match self.query(st, &[c])? { Some(m) => st.model = m, None => return Err(Stop::Infeasible) } }
                            }
                            self.add_pc(st, c);
                        }
                    }
                }
            }
            BI::SxCover => { let id = vs[0].c().unwrap_or(0) as u32; if !st.covers.contains(&id) { st.covers.push(id); } }
            BI::SxObs => { let k = vs[0].c().unwrap_or(0) as u64; st.obs.push((k, vs[1].clone())); }
            BI::SxPanic => {
                let p = self.concretize(st, &vs[0], 64)?;
                let n = self.concretize(st, &vs[1], 64)?;
                let mut s = vec![];
                for k in 0..n { match self.load_bytes(st, p + k, 1, 8)? { V::C(x) => s.push(x as u8), _ => s.push(b'?') } }
                let line = vs[2].c().unwrap_or(0);
                let file = String::from_utf8_lossy(&s).into_owned();
                let short = file.rsplit_once("/src/").map(|x| x.1.to_string()).unwrap_or(file.clone());
                if std::env::var("SYMX_DEBUG").is_ok() { eprintln!("panic {file}:{line} in {}", self.whereami(st)); }
                return Ok(Next::End(format!("panic {short}:{line}")));
            }
            BI::SxAlloc => { let n = self.concretize(st, &vs[0], 64)?; if n > 64 << 20 { return Ok(Next::End(format!("alloc {n}"))); } res = Some(V::C(self.alloc(st, n))); }
            BI::SxFree => { let p = self.concretize(st, &vs[0], 64)?; self.free(st, p)?; }
            BI::SxSym => res = Some(V::C(1)),
            BI::SxDone => return Ok(Next::End("ok".into())),
            BI::SxStop => return Ok(Next::End("stop".into())),
            BI::FmulAdd | BI::Defined | BI::Unknown => return Err(Stop::Problem(format!("call of external function {}", self.m.funcs[f as usize].name))),
        }
        if let (Some(d), Some(v)) = (d, res) { Self::set(st, d, v); }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(Next::Go)
    }
}

/// A readable tail of a v0-mangled Rust symbol (identifiers only).
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && !(i > 0 && b[i - 1] == b'_' && false) {
            let a = i;
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            let n: usize = s[a..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' { j += 1; }
            if n > 0 && j + n <= b.len() && b[j..j + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { out.push(s[j..j + n].to_string()); i = j + n; continue; }
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguators and back references: skip base-62 digits
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        i += 1;
    }
    let k = out.len().min(6);
    out[..k].join("::")
}
