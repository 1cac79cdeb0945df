//! Hash-consed bit-vector / IEEE-754 expression DAG with a local simplifier, interval bounds and a concrete evaluator.
//!
//! Every node has a bit width of at most 128. Booleans are 1-bit vectors. Floating-point values are carried as their bits;
//! the floating-point operators work on those bits.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type Id = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64); }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite,
    Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, FRem, FSqrt,
    FEq, FLt, FLe, FNan,
    FToS, FToU, SToF, UToF, FCvt, FRnd,
    /// functions of libm, by `TRANS`; only of one variable of few bits, see `Z3::tabled`
    FTrans, FTrans2,
}
pub const TRANS: [&str; 12] = ["sin", "cos", "tan", "asin", "acos", "atan", "log", "log2", "log10", "exp", "atan2", "pow"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    /// Const: value. Var: variable index. Extract: low bit. FRnd: mode.
    pub imm: u128,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }

pub struct Vars(pub std::rc::Rc<Vec<u32>>);

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, Id>,
    lo: Vec<u128>,
    hi: Vec<u128>,
    /// Sorted variable support of each node.
    pub vars: Vec<std::rc::Rc<Vec<u32>>>,
    pub nvars: u32,
    empty: std::rc::Rc<Vec<u32>>,
}

pub type Model = FxMap<u32, u128>;

fn f64b(v: u128) -> f64 { f64::from_bits(v as u64) }
fn f32b(v: u128) -> f32 { f32::from_bits(v as u32) }

/// Evaluates one operator on concrete operands.
pub fn eval_op(op: Op, w: u32, aw: u32, bw: u32, imm: u128, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Const => imm,
        Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x >= 0 { u128::MAX } else { 1 } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let x = sext(a, w); let s = if b >= w as u128 { w - 1 } else { b as u32 }; (x >> s) as u128 }
        Op::Concat => (a << bw) | b,
        Op::Extract => a >> imm,
        Op::ZExt => a,
        Op::SExt => sext(a, aw) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => if w == 64 {
            let (x, y) = (f64b(a), f64b(b));
            canon64(match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => x % y })
        } else {
            let (x, y) = (f32b(a), f32b(b));
            canon32(match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => x % y })
        },
        Op::FTrans | Op::FTrans2 => {
            let (x, y) = (f64b(a), f64b(b));
            canon64(match imm { 0 => libm::sin(x), 1 => libm::cos(x), 2 => libm::tan(x), 3 => libm::asin(x), 4 => libm::acos(x), 5 => libm::atan(x), 6 => libm::log(x), 7 => libm::log2(x), 8 => libm::log10(x), 9 => libm::exp(x), 10 => libm::atan2(x, y), _ => libm::pow(x, y) })
        }
        Op::FSqrt => if w == 64 { canon64(f64b(a).sqrt()) } else { canon32(f32b(a).sqrt()) },
        Op::FRnd => if w == 64 {
            let x = f64b(a);
            canon64(match imm { 0 => x.trunc(), 1 => x.floor(), 2 => x.ceil(), 3 => x.round(), _ => x.round_ties_even() })
        } else {
            let x = f32b(a);
            canon32(match imm { 0 => x.trunc(), 1 => x.floor(), 2 => x.ceil(), 3 => x.round(), _ => x.round_ties_even() })
        },
        Op::FEq => if aw == 64 { (f64b(a) == f64b(b)) as u128 } else { (f32b(a) == f32b(b)) as u128 },
        Op::FLt => if aw == 64 { (f64b(a) < f64b(b)) as u128 } else { (f32b(a) < f32b(b)) as u128 },
        Op::FLe => if aw == 64 { (f64b(a) <= f64b(b)) as u128 } else { (f32b(a) <= f32b(b)) as u128 },
        Op::FNan => if aw == 64 { f64b(a).is_nan() as u128 } else { f32b(a).is_nan() as u128 },
        Op::FToS => { let x = if aw == 64 { f64b(a) } else { f32b(a) as f64 }; x as i128 as u128 }
        Op::FToU => { let x = if aw == 64 { f64b(a) } else { f32b(a) as f64 }; x as u128 }
        Op::SToF => { let x = sext(a, aw); if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        Op::UToF => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::FCvt => if w == aw { a } else if w == 64 { canon64(f32b(a) as f64) } else { canon32(f64b(a) as f32) },
    };
    r & m
}
fn canon64(x: f64) -> u128 { if x.is_nan() { 0x7ff8000000000000 } else { x.to_bits() as u128 } }
fn canon32(x: f32) -> u128 { if x.is_nan() { 0x7fc00000 } else { x.to_bits() as u128 } }

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![], map: Default::default(), lo: vec![], hi: vec![], vars: vec![], nvars: 0, empty: Default::default() }
    }
    #[inline] pub fn w(&self, x: Id) -> u32 { self.nodes[x as usize].w as u32 }
    #[inline] pub fn op(&self, x: Id) -> Op { self.nodes[x as usize].op }
    #[inline] pub fn cval(&self, x: Id) -> Option<u128> { let n = &self.nodes[x as usize]; if n.op == Op::Const { Some(n.imm) } else { None } }
    pub fn bounds(&self, x: Id) -> (u128, u128) { (self.lo[x as usize], self.hi[x as usize]) }

    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) { return i; }
        let i = self.nodes.len() as Id;
        let (lo, hi) = self.compute_bounds(&n);
        let vars = match n.op {
            Op::Const => self.empty.clone(),
            Op::Var => std::rc::Rc::new(vec![n.imm as u32]),
            _ => {
                let k = Self::arity(n.op);
                let mut v = self.vars[n.a as usize].clone();
                if k >= 2 { v = self.union(&v, &self.vars[n.b as usize].clone()); }
                if k >= 3 { v = self.union(&v, &self.vars[n.c as usize].clone()); }
                v
            }
        };
        self.nodes.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.vars.push(vars);
        self.map.insert(n, i);
        i
    }
    fn union(&self, a: &std::rc::Rc<Vec<u32>>, b: &std::rc::Rc<Vec<u32>>) -> std::rc::Rc<Vec<u32>> {
        if std::rc::Rc::ptr_eq(a, b) || b.is_empty() { return a.clone(); }
        if a.is_empty() { return b.clone(); }
        if b.iter().all(|x| a.binary_search(x).is_ok()) { return a.clone(); }
        if a.iter().all(|x| b.binary_search(x).is_ok()) { return b.clone(); }
        let mut r: Vec<u32> = a.iter().chain(b.iter()).copied().collect();
        r.sort_unstable();
        r.dedup();
        std::rc::Rc::new(r)
    }
    pub fn arity(op: Op) -> u32 {
        match op {
            Op::Const | Op::Var => 0,
            Op::Extract | Op::ZExt | Op::SExt | Op::FSqrt | Op::FNan | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FCvt | Op::FRnd | Op::FTrans => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }
    fn compute_bounds(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let full = (0, mask(w));
        let g = |i: Id| (self.lo[i as usize], self.hi[i as usize]);
        match n.op {
            Op::Const => (n.imm, n.imm),
            Op::ZExt => g(n.a),
            Op::Ite => { let (b, c) = (g(n.b), g(n.c)); (b.0.min(c.0), b.1.max(c.1)) }
            Op::And => (0, g(n.a).1.min(g(n.b).1)),
            Op::Or => {
                let (a, b) = (g(n.a), g(n.b));
                let m = a.1 | b.1;
                let bits = 128 - m.leading_zeros();
                (a.0.max(b.0), mask(bits).min(mask(w)))
            }
            Op::Xor => { let m = g(n.a).1 | g(n.b).1; (0, mask(128 - m.leading_zeros()).min(mask(w))) }
            Op::Add => { let (a, b) = (g(n.a), g(n.b)); match a.1.checked_add(b.1) { Some(h) if h <= mask(w) => (a.0 + b.0, h), _ => full } }
            Op::Sub => { let (a, b) = (g(n.a), g(n.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
            Op::Mul => { let (a, b) = (g(n.a), g(n.b)); match a.1.checked_mul(b.1) { Some(h) if h <= mask(w) => (a.0 * b.0, h), _ => full } }
            Op::UDiv => { let (a, b) = (g(n.a), g(n.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
            Op::URem => { let (a, b) = (g(n.a), g(n.b)); if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { (0, a.1.max(b.1)) } }
            Op::LShr => { let (a, b) = (g(n.a), g(n.b)); if b.0 >= 128 { (0, 0) } else { (if b.1 >= 128 { 0 } else { a.0 >> b.1 }, a.1 >> b.0) } }
            Op::Shl => { let (a, b) = (g(n.a), g(n.b)); if b.1 < w as u128 && a.1.leading_zeros() as u128 >= b.1 + (128 - w as u128) { (a.0 << b.0, a.1 << b.1) } else { full } }
            Op::Concat => { let (a, b) = (g(n.a), g(n.b)); let bw = self.w(n.b); ((a.0 << bw) | b.0, (a.1 << bw) | b.1) }
            Op::Extract => { let a = g(n.a); let lo = n.imm as u32; if a.1 >> lo <= mask(w) { (a.0 >> lo, a.1 >> lo) } else { full } }
            _ => full,
        }
    }

    pub fn konst(&mut self, w: u32, v: u128) -> Id { self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, imm: v & mask(w) }) }
    pub fn var(&mut self, w: u32) -> Id {
        let k = self.nvars;
        self.nvars += 1;
        self.intern(Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, imm: k as u128 })
    }
    /// Re-obtains the variable with a given index (used so that sibling paths share variables).
    pub fn var_at(&mut self, w: u32, idx: u32) -> Id {
        if idx >= self.nvars { self.nvars = idx + 1; }
        self.intern(Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, imm: idx as u128 })
    }
    fn raw(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id, imm: u128) -> Id {
        self.intern(Node { op, w: w as u16, a, b, c, imm })
    }

    pub fn not(&mut self, a: Id) -> Id { let w = self.w(a); let m = self.konst(w, mask(w)); self.bin(Op::Xor, a, m) }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if w == aw { return a; }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.konst(w, n.imm >> lo),
            Op::Extract => return self.extract(n.a, lo + n.imm as u32, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, w - (bw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo >= iw { return self.konst(w, 0); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } }
            Op::And | Op::Or | Op::Xor => {
                if self.cval(n.b).is_some() || self.op(n.a) == Op::Concat || self.op(n.b) == Op::Concat || self.op(n.a) == Op::ZExt || self.op(n.b) == Op::ZExt {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w <= 64 && (self.op(n.a) == Op::ZExt || self.op(n.a) == Op::SExt) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => if let Some(s) = self.cval(n.b) {
                let s = s as u32;
                if s < aw {
                    if lo >= s { return self.extract(n.a, lo - s, w); }
                    if lo + w <= s { return self.konst(w, 0); }
                }
            }
            Op::LShr => if let Some(s) = self.cval(n.b) {
                let s = s as u32;
                if s < aw && lo + s + w <= aw { return self.extract(n.a, lo + s, w); }
            }
            _ => (),
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }
    /// `hi` becomes the most significant part.
    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let (h, l) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) { return self.konst(hw + lw, (x << lw) | y); }
        if self.cval(hi) == Some(0) { return self.zext(lo, hw + lw); }
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.imm == l.imm + lw as u128 {
            return self.extract(h.a, l.imm as u32, hw + lw);
        }
        if h.op == Op::Extract && h.a == lo && h.imm == lw as u128 { unreachable!() }
        if l.op == Op::Concat {
            // keep right-nested: try to merge hi with the top of lo
            let top = self.nodes[l.a as usize];
            if h.op == Op::Extract && top.op == Op::Extract && top.a == h.a && h.imm == top.imm + self.w(l.a) as u128 {
                let m = self.concat(hi, l.a);
                return self.concat(m, l.b);
            }
            if self.cval(hi).is_some() && self.cval(l.a).is_some() {
                let m = self.concat(hi, l.a);
                return self.concat(m, l.b);
            }
        }
        if h.op == Op::Concat {
            let m = self.concat(h.b, lo);
            return self.concat(h.a, m);
        }
        if h.op == Op::Ite && l.op == Op::Ite && h.a == l.a {
            let x = self.concat(h.b, l.b);
            let y = self.concat(h.c, l.c);
            return self.ite(h.a, x, y);
        }
        self.raw(Op::Concat, hw + lw, hi, lo, 0, 0)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.konst(w, n.imm),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cval(n.b).is_some() || self.cval(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => (),
        }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.konst(w, sext(n.imm, aw) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => (),
        }
        if self.hi[a as usize] < (1u128 << (aw - 1)) { return self.zext(a, w); }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.cval(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let cn = self.nodes[c as usize];
        if cn.op == Op::Xor && self.cval(cn.b) == Some(1) { return self.ite(cn.a, b, a); }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => (),
            }
        }
        let (an, bn) = (self.nodes[a as usize], self.nodes[b as usize]);
        if an.op == Op::Ite && an.a == c { return self.ite(c, an.b, b); }
        if bn.op == Op::Ite && bn.a == c { return self.ite(c, a, bn.c); }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let (mut a, mut b) = (a, b);
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b), "{op:?}");
        let w = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => 1, _ => aw };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = eval_op(op, w, aw, aw, 0, x, y, 0);
            return self.konst(w, r);
        }
        match op {
            // x - y is x + (-y), in every case including signed zeros
            Op::FSub => { let s = self.konst(w, 1u128 << (w - 1)); let nb = self.bin(Op::Xor, b, s); return self.bin(Op::FAdd, a, nb); }
            _ => (),
        }
        if matches!(op, Op::FAdd | Op::FMul | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::Eq) { if let Some(r) = self.int_arith(op, a, b) { return r; } }
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq => {
                if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
            }
            _ => (),
        }
        let (n, cb) = (self.nodes[a as usize], self.cval(b));
        let m = mask(aw);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(cb) = cb {
                    if n.op == Op::Add { if let Some(k) = self.cval(n.b) { let k = self.konst(w, k.wrapping_add(cb)); return self.bin(Op::Add, n.a, k); } }
                    if n.op == Op::Sub { if let Some(k) = self.cval(n.a) { let k = self.konst(w, k.wrapping_add(cb)); return self.bin(Op::Sub, k, n.b); } }
                }
            }
            Op::Sub => {
                if a == b { return self.konst(w, 0); }
                if let Some(cb) = cb { let k = self.konst(w, cb.wrapping_neg()); return self.bin(Op::Add, a, k); }
                // (x + k) - x
                if n.op == Op::Add && n.a == b { return n.b; }
                if n.op == Op::Add && n.b == b { return n.a; }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(w, c.trailing_zeros() as u128); return self.bin(Op::Shl, a, k); } }
            }
            Op::UDiv => {
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(w, c.trailing_zeros() as u128); return self.bin(Op::LShr, a, k); } }
                if let Some(c) = cb { if c > self.hi[a as usize] { return self.konst(w, 0); } }
            }
            Op::SRem | Op::SDiv if aw > 8 => {
                // narrow operands
                let k = |s: &Self, x: Id| -> u32 { let n = s.nodes[x as usize]; match n.op { Op::SExt => s.w(n.a), Op::ZExt => s.w(n.a) + 1, Op::Const => { let v = sext(n.imm, aw); let m = if v < 0 { !v } else { v }; 129 - (m as u128).leading_zeros() } _ => aw } };
                let w2 = k(self, a).max(k(self, b)) + 1;
                if w2 < aw {
                    let (x, y) = (self.extract(a, 0, w2), self.extract(b, 0, w2));
                    // division by zero keeps the solver's meaning only for the remainder (the dividend) and for narrow quotients guarded by the code
                    if op == Op::SRem { let r = self.bin(op, x, y); return self.sext(r, aw); }
                    if cb.is_some() && cb != Some(0) { let r = self.bin(op, x, y); return self.sext(r, aw); }
                }
            }
            Op::URem => {
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(w, c - 1); return self.bin(Op::And, a, k); } if c > self.hi[a as usize] { return a; } }
            }
            Op::And => {
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if let Some(c) = cb {
                    if op == Op::And && w == 64 && c == mask(63) && matches!(n.op, Op::SToF | Op::UToF | Op::FMul | Op::Ite | Op::Xor) { if let Some(r) = self.int_abs(a, 3) { return r; } }
                    if n.op == Op::And { if let Some(k) = self.cval(n.b) { let k = self.konst(w, k & c); return self.bin(Op::And, n.a, k); } }
                    // contiguous low mask
                    let ones = c.trailing_ones();
                    if c == mask(ones) && ones < w {
                        if self.hi[a as usize] <= c { return a; }
                        let x = self.extract(a, 0, ones);
                        return self.zext(x, w);
                    }
                    // contiguous mask in the middle
                    let tz = c.trailing_zeros();
                    let ones = (c >> tz).trailing_ones();
                    if tz > 0 && c >> tz == mask(ones) && tz + ones <= w {
                        let x = self.extract(a, tz, ones);
                        let z = self.konst(tz, 0);
                        let x = self.concat(x, z);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    // x & !x
                    let nb = self.nodes[b as usize];
                    if nb.op == Op::Xor && nb.a == a && self.cval(nb.b) == Some(1) { return self.konst(1, 0); }
                    if n.op == Op::Xor && n.a == b && self.cval(n.b) == Some(1) { return self.konst(1, 0); }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if w == 1 {
                    let nb = self.nodes[b as usize];
                    if nb.op == Op::Xor && nb.a == a && self.cval(nb.b) == Some(1) { return self.konst(1, 1); }
                    if n.op == Op::Xor && n.a == b && self.cval(n.b) == Some(1) { return self.konst(1, 1); }
                }
                // disjoint parts: (x << k) | zext(y)
                if let Some(r) = self.or_as_concat(a, b) { return r; }
                if let Some(r) = self.or_as_concat(b, a) { return r; }
            }
            Op::Xor => {
                if a == b { return self.konst(w, 0); }
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if n.op == Op::Xor { if let Some(k) = self.cval(n.b) { let k = self.konst(w, k ^ c); return self.bin(Op::Xor, n.a, k); } }
                    if w == 1 && c == 1 {
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            _ => (),
                        }
                    }
                    if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                        let x = self.bin(Op::Xor, n.b, b);
                        let y = self.bin(Op::Xor, n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) { return a; }
                if self.cval(a) == Some(0) { return a; }
                if let Some(s) = cb {
                    if s >= w as u128 { return self.konst(w, 0); }
                    let s = s as u32;
                    let x = self.extract(a, 0, w - s);
                    let z = self.konst(s, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) { return a; }
                if self.cval(a) == Some(0) { return a; }
                if let Some(s) = cb {
                    if s >= w as u128 { return self.konst(w, 0); }
                    let x = self.extract(a, s as u32, w - s as u32);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(s) = cb {
                    let s = (s.min(w as u128 - 1)) as u32;
                    let x = self.extract(a, s, w - s);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if w == 1 && aw == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                let (la, ha) = self.bounds(a);
                let (lb, hb) = self.bounds(b);
                if ha < lb || hb < la { return self.konst(1, 0); }
                if let Some(c) = cb {
                    match n.op {
                        Op::ZExt => { let iw = self.w(n.a); let k = self.konst(iw, c); return self.bin(Op::Eq, n.a, k); }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if sext(c & mask(iw), iw) as u128 & m != c { return self.konst(1, 0); }
                            let k = self.konst(iw, c);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Concat => {
                            let bw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kh = self.konst(hw, c >> bw);
                            let kl = self.konst(bw, c);
                            let x = self.bin(Op::Eq, n.a, kh);
                            if self.cval(x) == Some(0) { return x; }
                            let y = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                                let x = self.bin(Op::Eq, n.b, b);
                                let y = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, x, y);
                            }
                        }
                        Op::Add => if let Some(k) = self.cval(n.b) { let k = self.konst(aw, c.wrapping_sub(k)); return self.bin(Op::Eq, n.a, k); }
                        Op::Sub => if let Some(k) = self.cval(n.a) { let k = self.konst(aw, k.wrapping_sub(c)); return self.bin(Op::Eq, n.b, k); }
                        Op::Xor => if let Some(k) = self.cval(n.b) { let k = self.konst(aw, c ^ k); return self.bin(Op::Eq, n.a, k); }
                        _ => (),
                    }
                } else {
                    let nb = self.nodes[b as usize];
                    if n.op == Op::ZExt && nb.op == Op::ZExt && self.w(n.a) == self.w(nb.a) { return self.bin(Op::Eq, n.a, nb.a); }
                    if n.op == Op::SExt && nb.op == Op::SExt && self.w(n.a) == self.w(nb.a) { return self.bin(Op::Eq, n.a, nb.a); }
                    if n.op == Op::Ite && (n.b == b || n.c == b) || nb.op == Op::Ite && (nb.b == a || nb.c == a) {
                        let (it, o) = if n.op == Op::Ite && (n.b == b || n.c == b) { (n, b) } else { (nb, a) };
                        let x = self.bin(Op::Eq, it.b, o);
                        let y = self.bin(Op::Eq, it.c, o);
                        return self.ite(it.a, x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.konst(1, (op == Op::Ule) as u128); }
                let (la, ha) = self.bounds(a);
                let (lb, hb) = self.bounds(b);
                if op == Op::Ult {
                    if ha < lb { return self.konst(1, 1); }
                    if la >= hb { return self.konst(1, 0); }
                } else {
                    if ha <= lb { return self.konst(1, 1); }
                    if la > hb { return self.konst(1, 0); }
                }
                let nb = self.nodes[b as usize];
                if n.op == Op::ZExt && nb.op == Op::ZExt && self.w(n.a) == self.w(nb.a) { return self.bin(op, n.a, nb.a); }
                if n.op == Op::ZExt { if let Some(c) = cb { let iw = self.w(n.a); if c <= mask(iw) { let k = self.konst(iw, c); return self.bin(op, n.a, k); } } }
                if nb.op == Op::ZExt { if let Some(c) = self.cval(a) { let iw = self.w(nb.a); if c <= mask(iw) { let k = self.konst(iw, c); return self.bin(op, k, nb.a); } } }
                if op == Op::Ult && cb == Some(1) { let z = self.konst(aw, 0); return self.bin(Op::Eq, a, z); }
                if op == Op::Ule && cb == Some(0) { return self.bin(Op::Eq, a, b); }
                if n.op == Op::Ite && cb.is_some() && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                    let x = self.bin(op, n.b, b);
                    let y = self.bin(op, n.c, b);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.konst(1, (op == Op::Sle) as u128); }
                let half = 1u128 << (aw - 1);
                let (ha, hb) = (self.hi[a as usize], self.hi[b as usize]);
                if ha < half && hb < half { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                if n.op == Op::Ite && cb.is_some() && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                    let x = self.bin(op, n.b, b);
                    let y = self.bin(op, n.c, b);
                    return self.ite(n.a, x, y);
                }
                // sign test: x < 0
                if op == Op::Slt && cb == Some(0) { return self.extract(a, aw - 1, 1); }
                if op == Op::Sle && self.cval(a) == Some(0) { let s = self.extract(b, aw - 1, 1); return self.not(s); }
                if op == Op::Sle && cb == Some(m) { return self.extract(a, aw - 1, 1); }
                if op == Op::Slt && self.cval(a) == Some(m) { let s = self.extract(b, aw - 1, 1); return self.not(s); }
            }
            Op::FEq | Op::FLt | Op::FLe => {
                if op == Op::FEq {
                    if let Some(k) = cb {
                        let inf = if aw == 64 { 0x7ffu128 << 52 } else { 0xffu128 << 23 };
                        let mag = k & mask(aw - 1);
                        if mag > inf { return self.konst(1, 0); }
                        if !self.is_arith(a) {
                            // bitwise, apart from the two zeros
                            if mag != 0 { return self.bin(Op::Eq, a, b); }
                            let x = self.extract(a, 0, aw - 1);
                            let z = self.konst(aw - 1, 0);
                            return self.bin(Op::Eq, x, z);
                        }
                    }
                }
                let nb = self.nodes[b as usize];
                if cb.is_some() && n.op == Op::Ite && (self.cval(n.b).is_some() || self.cval(n.c).is_some()) {
                    let (x, y) = (self.bin(op, n.b, b), self.bin(op, n.c, b));
                    return self.ite(n.a, x, y);
                }
                if self.cval(a).is_some() && nb.op == Op::Ite && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) {
                    let (x, y) = (self.bin(op, a, nb.b), self.bin(op, a, nb.c));
                    return self.ite(nb.a, x, y);
                }
            }
            _ => (),
        }
        self.raw(op, w, a, b, 0, 0)
    }
    /// `a = concat(x, 0_k)` (possibly zero-extended), `b` bounded below `2^k`.
    fn or_as_concat(&mut self, a: Id, b: Id) -> Option<Id> {
        let w = self.w(a);
        let mut n = self.nodes[a as usize];
        let mut top = w;
        if n.op == Op::ZExt { top = self.w(n.a); n = self.nodes[n.a as usize]; }
        if n.op != Op::Concat { return None; }
        // find the trailing zero part
        let (x, z) = (n.a, n.b);
        let zw = self.w(z);
        if self.cval(z) == Some(0) {
            if self.hi[b as usize] > mask(zw) { return None; }
            let l = self.extract(b, 0, zw);
            let r = self.concat(x, l);
            return Some(self.zext(r, w));
        }
        // concat(x, concat(y, 0)): recurse on the low part
        let nz = self.nodes[z as usize];
        if nz.op == Op::Concat && self.hi[b as usize] <= mask(zw) {
            let l = self.extract(b, 0, zw);
            if let Some(r) = self.or_as_concat(z, l) {
                let r = self.concat(x, r);
                let _ = top;
                return Some(self.zext(r, w));
            }
        }
        None
    }
    /// `x` as a double that is the conversion of an integer of at most `max` bits (bit width of the returned node);
    /// the flag says that a zero may be the negative one
    fn as_int(&mut self, x: Id, max: u32) -> Option<(Id, bool)> {
        let n = self.nodes[x as usize];
        if n.w != 64 { return None; }
        match n.op {
            Op::SToF if self.w(n.a) <= max => Some((n.a, false)),
            Op::UToF if self.w(n.a) < max => { let w = self.w(n.a); Some((self.zext(n.a, w + 1), false)) }
            Op::Const => {
                let f = f64::from_bits(n.imm as u64);
                if f.is_finite() && f == f.trunc() && f.abs() < (1u64 << 40) as f64 && max >= 42 {
                    let w = 66 - (f.abs() as u64).leading_zeros();
                    Some((self.konst(w, f as i64 as i128 as u128), f == 0.0 && f.is_sign_negative()))
                } else { None }
            }
            Op::Xor if self.cval(n.b) == Some(1 << 63) => {
                let (v, z) = self.as_int(n.a, max - 1)?;
                if z { return None; }
                let w = self.w(v) + 1;
                let v = self.sext(v, w);
                let o = self.konst(w, 0);
                Some((self.bin(Op::Sub, o, v), true))
            }
            _ => None,
        }
    }
    /// the exponent k of a double 2^-k with 0 < k <= 8
    fn half_power(&self, x: Id) -> Option<u32> {
        let v = self.cval(x)?;
        if self.w(x) != 64 || v & mask(52) != 0 { return None; }
        let e = 1023 - (v >> 52) as i64;
        if (1..=8).contains(&e) { Some(e as u32) } else { None }
    }
    /// as `as_int`, for an integer divided by 2^k (k <= 8)
    fn as_dy(&mut self, x: Id, max: u32) -> Option<(Id, u32, bool)> {
        if let Some((v, z)) = self.as_int(x, max) { return Some((v, 0, z)); }
        let n = self.nodes[x as usize];
        if n.w != 64 { return None; }
        match n.op {
            Op::Const => {
                let f = f64::from_bits(n.imm as u64);
                if !f.is_finite() || f.abs() >= (1u64 << 30) as f64 { return None; }
                for k in 1..=8u32 {
                    let g = f * (1u64 << k) as f64;
                    if g == g.trunc() { let w = 66 - (g.abs() as u64).leading_zeros(); return if w <= max { Some((self.konst(w, g as i64 as i128 as u128), k, false)) } else { None }; }
                }
                None
            }
            Op::FMul if self.op(n.a) == Op::SToF => {
                let k = self.half_power(n.b)?;
                let v = self.nodes[n.a as usize].a;
                if self.w(v) <= max { Some((v, k, false)) } else { None }
            }
            Op::Xor if self.cval(n.b) == Some(1 << 63) => {
                let (v, k, z) = self.as_dy(n.a, max - 1)?;
                if z { return None; }
                let w = self.w(v) + 1;
                let v = self.sext(v, w);
                let o = self.konst(w, 0);
                Some((self.bin(Op::Sub, o, v), k, true))
            }
            _ => None,
        }
    }
    /// the double v / 2^k
    fn mk_dy(&mut self, v: Id, k: u32) -> Id {
        let f = self.un(Op::SToF, 64, v, 0);
        if k == 0 { return f; }
        let h = self.konst(64, ((1023 - k as u128) << 52) as u128);
        self.bin(Op::FMul, f, h)
    }
    /// the magnitude of an integer (or such a fraction)
    fn int_abs(&mut self, x: Id, d: u32) -> Option<Id> {
        let n = self.nodes[x as usize];
        if n.op == Op::Ite && d > 0 && self.int_tree(x, 3) {
            let m = self.konst(64, mask(63));
            let (p, q) = (self.bin(Op::And, n.b, m), self.bin(Op::And, n.c, m));
            return Some(self.ite(n.a, p, q));
        }
        let (v, k, _) = self.as_dy(x, 49)?;
        let w = self.w(v) + 1;
        let v = self.sext(v, w);
        let o = self.konst(w, 0);
        let (neg, nv) = (self.bin(Op::Slt, v, o), self.bin(Op::Sub, o, v));
        let v = self.ite(neg, nv, v);
        Some(self.mk_dy(v, k))
    }
    /// a selection between doubles that are conversions of integers
    fn int_tree(&mut self, x: Id, d: u32) -> bool {
        let n = self.nodes[x as usize];
        if n.op == Op::Const { return true; }
        if n.op == Op::Ite { return d > 0 && self.int_tree(n.b, d - 1) && self.int_tree(n.c, d - 1); }
        self.as_dy(x, 52).is_some()
    }
    fn int_arith(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        if self.w(a) != 64 { return None; }
        // the sign of a divisor does not matter
        if op == Op::FRem {
            let nb = self.nodes[b as usize];
            if nb.op == Op::Xor && self.cval(nb.b) == Some(1 << 63) { return Some(self.bin(op, a, nb.a)); }
        }
        if matches!(op, Op::FEq | Op::FLt | Op::FLe) {
            // conversions of integers are finite
            for (x, y, left) in [(a, b, true), (b, a, false)] {
                let Some(k) = self.cval(y) else { continue };
                if k & mask(63) != 0x7ff << 52 { continue; }
                let mut z = x;
                loop {
                    let n = self.nodes[z as usize];
                    match n.op {
                        Op::Xor if self.cval(n.b) == Some(1 << 63) => z = n.a,
                        Op::ZExt if self.op(n.a) == Op::Extract && self.w(n.a) == 63 && self.nodes[n.a as usize].imm == 0 && self.w(self.nodes[n.a as usize].a) == 64 => z = self.nodes[n.a as usize].a,
                        _ => break,
                    }
                }
                if matches!(self.op(z), Op::SToF | Op::UToF) || self.op(z) == Op::FMul && self.as_dy(z, 50).is_some() {
                    let neg = k >> 63 == 1;
                    return Some(self.konst(1, (op != Op::FEq && left != neg) as u128));
                }
            }
        }
        if let (Some((x, kx, zx)), Some((y, ky, zy))) = (self.as_dy(a, 50), self.as_dy(b, 50)) {
            let k = kx.max(ky);
            let (wx, wy) = (self.w(x) + k - kx, self.w(y) + k - ky);
            let w = wx.max(wy) + 1;
            if k > 0 && w <= 50 {
                let (xs, ys) = (self.sext(x, w), self.sext(y, w));
                let (cx, cy) = (self.konst(w, (k - kx) as u128), self.konst(w, (k - ky) as u128));
                let (xs, ys) = (self.bin(Op::Shl, xs, cx), self.bin(Op::Shl, ys, cy));
                match op {
                    Op::FEq => return Some(self.bin(Op::Eq, xs, ys)),
                    Op::FLt => return Some(self.bin(Op::Slt, xs, ys)),
                    Op::FLe => return Some(self.bin(Op::Sle, xs, ys)),
                    Op::Eq if !zx && !zy => return Some(self.bin(Op::Eq, xs, ys)),
                    Op::FAdd if !(zx && zy) => { let r = self.bin(Op::Add, xs, ys); return Some(self.mk_dy(r, k)); }
                    _ => (),
                }
            }
        }
        let ia = self.as_int(a, 50);
        let ib = self.as_int(b, 50);
        if let (Some((x, zx)), Some((y, zy))) = (ia, ib) {
            let w = self.w(x).max(self.w(y)) + 1;
            let (xs, ys) = (self.sext(x, w), self.sext(y, w));
            match op {
                Op::FEq => return Some(self.bin(Op::Eq, xs, ys)),
                Op::FLt => return Some(self.bin(Op::Slt, xs, ys)),
                Op::FLe => return Some(self.bin(Op::Sle, xs, ys)),
                Op::Eq if !zx && !zy => return Some(self.bin(Op::Eq, xs, ys)),
                Op::FAdd if !(zx && zy) => { let r = self.bin(Op::Add, xs, ys); return Some(self.un(Op::SToF, 64, r, 0)); }
                Op::FMul if !zx && !zy && self.w(x) + self.w(y) <= 50 && self.cval(a).is_none() && self.cval(b).is_none() => {
                    let w = self.w(x) + self.w(y);
                    let (xs, ys) = (self.sext(x, w), self.sext(y, w));
                    let o = self.konst(w, 0);
                    let r = self.bin(Op::Mul, xs, ys);
                    let (xn, yn) = (self.bin(Op::Slt, xs, o), self.bin(Op::Slt, ys, o));
                    let (neg, rz) = (self.bin(Op::Or, xn, yn), self.bin(Op::Eq, r, o));
                    let mz = self.bin(Op::And, rz, neg);
                    let nz = self.konst(64, 1 << 63);
                    let r = self.un(Op::SToF, 64, r, 0);
                    return Some(self.ite(mz, nz, r));
                }
                Op::FRem if !zx => {
                    let o = self.konst(w, 0);
                    let (bz, r) = (self.bin(Op::Eq, ys, o), self.bin(Op::SRem, xs, ys));
                    let (rz, neg) = (self.bin(Op::Eq, r, o), self.bin(Op::Slt, xs, o));
                    let mz = self.bin(Op::And, rz, neg);
                    let (nan, nz) = (self.konst(64, 0x7ff8000000000000), self.konst(64, 1 << 63));
                    let r = self.un(Op::SToF, 64, r, 0);
                    let r = self.ite(mz, nz, r);
                    return Some(self.ite(bz, nan, r));
                }
                _ => (),
            }
        }
        if op == Op::Eq {
            // an integer conversion equals a bit pattern only if that is an integer
            for (x, y) in [(a, b), (b, a)] {
                if self.op(x) == Op::FMul && self.cval(y) == Some(1 << 63) && self.as_dy(x, 50).is_some() { return Some(self.konst(1, 0)); }
                if self.op(x) == Op::SToF && self.w(self.nodes[x as usize].a) <= 50 {
                    if let Some(k) = self.cval(y) { let f = f64::from_bits(k as u64); if !(f == f.trunc() && f.abs() < (1u64 << 52) as f64) || k == 1 << 63 { return Some(self.konst(1, 0)); } }
                }
            }
        }
        // selections between integers: distribute
        for (x, y, left) in [(a, b, true), (b, a, false)] {
            let n = self.nodes[x as usize];
            if n.op == Op::Ite && self.op(y) != Op::Ite && self.int_tree(x, 4) && self.int_tree(y, 0) && (op != Op::Eq || self.cval(y).is_some()) {
                let (p, q) = if left { (self.bin(op, n.b, y), self.bin(op, n.c, y)) } else { (self.bin(op, y, n.b), self.bin(op, y, n.c)) };
                return Some(self.ite(n.a, p, q));
            }
        }
        None
    }
    /// the result of a floating-point operation (up to sign and selection)
    fn is_arith(&self, x: Id) -> bool {
        let n = &self.nodes[x as usize];
        match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::SToF | Op::UToF | Op::FCvt | Op::FRnd | Op::FTrans | Op::FTrans2 => true,
            Op::Xor => self.cval(n.b).is_some() && self.is_arith(n.a),
            Op::ZExt | Op::Extract => self.is_arith(n.a),
            Op::Ite => self.is_arith(n.b) || self.is_arith(n.c),
            _ => false,
        }
    }
    pub fn trans2(&mut self, w: u32, a: Id, b: Id, k: u128) -> Id {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let r = eval_op(Op::FTrans2, w, w, w, k, x, y, 0); return self.konst(w, r); }
        self.raw(Op::FTrans2, w, a, b, 0, k)
    }
    pub fn un(&mut self, op: Op, w: u32, a: Id, imm: u128) -> Id {
        let aw = self.w(a);
        if let Some(x) = self.cval(a) { let r = eval_op(op, w, aw, 0, imm, x, 0, 0); return self.konst(w, r); }
        let n = self.nodes[a as usize];
        match op {
            Op::FCvt if aw == w => return a,
            Op::UToF if w == 64 && aw <= 50 => { let x = self.zext(a, aw + 1); return self.un(Op::SToF, w, x, imm); }
            Op::FToS | Op::FToU if n.op == Op::SToF && aw == 64 && self.w(n.a) <= 50 && self.w(n.a) < w => return self.sext(n.a, w),
            Op::FToS | Op::FToU if n.op == Op::Ite && self.int_tree(a, 4) => { let (x, y) = (self.un(op, w, n.b, imm), self.un(op, w, n.c, imm)); return self.ite(n.a, x, y); }
            Op::FNan if n.op == Op::Ite && self.int_tree(a, 4) => { let (x, y) = (self.un(op, 1, n.b, 0), self.un(op, 1, n.c, 0)); return self.ite(n.a, x, y); }
            Op::FNan if n.op == Op::Ite && (self.cval(n.b).is_some() || self.cval(n.c).is_some()) => {
                let (x, y) = (self.un(op, 1, n.b, 0), self.un(op, 1, n.c, 0));
                return self.ite(n.a, x, y);
            }
            Op::FNan if n.op == Op::Xor && self.cval(n.b) == Some(1 << (aw - 1)) => return self.un(op, 1, n.a, 0),
            Op::FNan if n.op == Op::Var || n.op == Op::Extract || n.op == Op::Concat || n.op == Op::ZExt => {
                if n.op == Op::ZExt && self.op(n.a) == Op::Extract && self.w(n.a) == aw - 1 { let m = self.nodes[n.a as usize]; if m.imm == 0 && self.w(m.a) == aw { return self.un(op, 1, m.a, 0); } }
                let inf = if aw == 64 { 0x7ffu128 << 52 } else { 0xffu128 << 23 };
                let k = self.konst(aw - 1, inf);
                let x = self.extract(a, 0, aw - 1);
                return self.bin(Op::Ult, k, x);
            }
            Op::FNan => match n.op { Op::SToF | Op::UToF => return self.konst(1, 0), Op::FMul if self.as_dy(a, 50).is_some() => return self.konst(1, 0), Op::FRnd => return self.un(Op::FNan, 1, n.a, 0), _ => () },
            Op::FRnd => match n.op { Op::SToF | Op::UToF | Op::FRnd => return a, _ => () },
            _ => (),
        }
        self.raw(op, w, a, 0, 0, imm)
    }

    /// Evaluates a node under a model (missing variables are zero).
    pub fn eval(&self, x: Id, model: &Model, cache: &mut FxMap<Id, u128>) -> u128 {
        let n = &self.nodes[x as usize];
        match n.op { Op::Const => return n.imm, Op::Var => return model.get(&(n.imm as u32)).copied().unwrap_or(0) & mask(n.w as u32), _ => () }
        if let Some(&v) = cache.get(&x) { return v; }
        // iterative post-order, to survive deep expressions
        let mut stack = vec![(x, false)];
        while let Some((y, done)) = stack.pop() {
            if cache.contains_key(&y) { continue; }
            let n = self.nodes[y as usize];
            let k = Self::arity(n.op);
            if !done && k > 0 {
                stack.push((y, true));
                if !cache.contains_key(&n.a) { stack.push((n.a, false)); }
                if k >= 2 && !cache.contains_key(&n.b) { stack.push((n.b, false)); }
                if k >= 3 && !cache.contains_key(&n.c) { stack.push((n.c, false)); }
                continue;
            }
            let v = match n.op {
                Op::Const => n.imm,
                Op::Var => model.get(&(n.imm as u32)).copied().unwrap_or(0) & mask(n.w as u32),
                _ => {
                    let g = |i: Id, c: &FxMap<Id, u128>| *c.get(&i).unwrap();
                    let a = g(n.a, cache);
                    let b = if k >= 2 { g(n.b, cache) } else { 0 };
                    let c = if k >= 3 { g(n.c, cache) } else { 0 };
                    eval_op(n.op, n.w as u32, self.w(n.a), if k >= 2 { self.w(n.b) } else { 0 }, n.imm, a, b, c)
                }
            };
            cache.insert(y, v);
        }
        cache[&x]
    }
}
