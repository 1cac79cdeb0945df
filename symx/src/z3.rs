//! Minimal Z3 C API binding and the translation of expression nodes into Z3 terms.

use crate::expr::*;
use std::rc::Rc;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type ModelP = *mut c_void;
type Sym = *mut c_void;
type Params = *mut c_void;
type Cfg = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_del_config(c: Cfg);
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort_32(c: Ctx) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_abs(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_neg(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_is_infinite(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_is_zero(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_is_negative(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> ModelP;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: ModelP);
    fn Z3_model_dec_ref(c: Ctx, m: ModelP);
    fn Z3_model_eval(c: Ctx, m: ModelP, t: Ast, complete: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_dec_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

extern "C" fn on_error(_: Ctx, code: c_int) { eprintln!("z3 error {code}"); }

pub struct Z3 {
    c: Ctx,
    bv: FxMap<Id, Ast>,
    bl: FxMap<Id, Ast>,
    fp: FxMap<Id, Ast>,
    /// Side conditions of operators that are axiomatised (remainder): node -> defining constraints.
    lemmas: FxMap<Id, Vec<Ast>>,
    pub n_ast: usize,
    /// In abstract mode the arithmetic operators are fresh values constrained by sound facts only; `alt` holds the
    /// translation caches of the mode that is not active.
    abs: bool,
    alt: (FxMap<Id, Ast>, FxMap<Id, Ast>, FxMap<Id, Ast>, FxMap<Id, Vec<Ast>>),
    pub abs_hits: u64,
    /// Per node: 1 = a floating-point operator occurs in it, 2 = an arithmetic one.
    fl: Vec<u8>,
    /// Per node: whether it is translated by its table (see `tabled`), and the table.
    tabs: FxMap<Id, Option<Rc<Vec<(u128, u128)>>>>,
    pub n_tabs: u64,
}

pub enum Res { Sat(Model), Unsat, Unknown }

impl Drop for Z3 { fn drop(&mut self) { unsafe { Z3_del_context(self.c) } } }

impl Z3 {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            Z3 { c, bv: Default::default(), bl: Default::default(), fp: Default::default(), lemmas: Default::default(), n_ast: 0, abs: false, alt: Default::default(), abs_hits: 0, fl: vec![], tabs: Default::default(), n_tabs: 0 }
        }
    }
    fn mode(&mut self, abs: bool) {
        if self.abs == abs { return; }
        self.abs = abs;
        std::mem::swap(&mut self.bv, &mut self.alt.0);
        std::mem::swap(&mut self.bl, &mut self.alt.1);
        std::mem::swap(&mut self.fp, &mut self.alt.2);
        std::mem::swap(&mut self.lemmas, &mut self.alt.3);
    }
    /// A floating-point term of one variable of at most 16 bits is a function of few points: it is translated as the
    /// exact piecewise constant function that the evaluator gives for it (pieces: first value of the variable, result).
    pub fn tabled(&mut self, ar: &Arena, x: Id) -> Option<Rc<Vec<(u128, u128)>>> {
        while self.fl.len() < ar.nodes.len() {
            let n = ar.nodes[self.fl.len()];
            let k = Arena::arity(n.op);
            let mut f = 0;
            if k >= 1 { f |= self.fl[n.a as usize]; }
            if k >= 2 { f |= self.fl[n.b as usize]; }
            if k >= 3 { f |= self.fl[n.c as usize]; }
            if n.op >= Op::FAdd { f |= 1; }
            if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FRnd | Op::FTrans | Op::FTrans2) { f |= 2; }
            self.fl.push(f);
        }
        let f = self.fl[x as usize];
        if f == 0 || ar.vars[x as usize].len() != 1 { return None; }
        if let Some(t) = self.tabs.get(&x) { return t.clone(); }
        let t = Self::table(ar, x, f).map(Rc::new);
        if t.is_some() { self.n_tabs += 1; }
        self.tabs.insert(x, t.clone());
        t
    }
    fn table(ar: &Arena, x: Id, f: u8) -> Option<Vec<(u128, u128)>> {
        // the nodes below in order
        let mut seen: FxMap<Id, ()> = Default::default();
        let mut order = vec![];
        let mut stack = vec![x];
        while let Some(y) = stack.pop() {
            if seen.insert(y, ()).is_some() { continue; }
            order.push(y);
            if order.len() > 600 { return None; }
            let n = ar.nodes[y as usize];
            let k = Arena::arity(n.op);
            if k >= 1 { stack.push(n.a); }
            if k >= 2 { stack.push(n.b); }
            if k >= 3 { stack.push(n.c); }
        }
        order.sort_unstable();
        let at: FxMap<Id, usize> = order.iter().enumerate().map(|(i, &y)| (y, i)).collect();
        let v = order.iter().find(|&&y| ar.op(y) == Op::Var).copied()?;
        let bits = ar.w(v);
        if bits > 16 || (bits > 8 && f & 2 == 0) { return None; }
        let ops: Vec<(Node, usize, usize, usize)> = order.iter().map(|&y| {
            let n = ar.nodes[y as usize];
            let k = Arena::arity(n.op);
            (n, if k >= 1 { at[&n.a] } else { 0 }, if k >= 2 { at[&n.b] } else { 0 }, if k >= 3 { at[&n.c] } else { 0 })
        }).collect();
        let mut vals = vec![0u128; ops.len()];
        let mut out: Vec<(u128, u128)> = vec![];
        for p in 0..1u128 << bits {
            for i in 0..ops.len() {
                let (n, a, b, c) = ops[i];
                vals[i] = match n.op { Op::Const => n.imm, Op::Var => p, _ => eval_op(n.op, n.w as u32, ops[a].0.w as u32, ops[b].0.w as u32, n.imm, vals[a], vals[b], vals[c]) };
            }
            let r = *vals.last().unwrap();
            if out.last().map(|x| x.1) != Some(r) { out.push((p, r)); if out.len() > 4096 { return None; } }
        }
        Some(out)
    }
    unsafe fn from_table(&mut self, ar: &Arena, x: Id, t: &[(u128, u128)]) -> Ast {
        let c = self.c;
        let mut v = x;
        loop { let n = ar.nodes[v as usize]; if n.op == Op::Var { break; } v = [n.a, n.b, n.c].into_iter().take(Arena::arity(n.op) as usize).find(|&y| !ar.vars[y as usize].is_empty()).unwrap(); }
        let va = self.bits(ar, v);
        let (w, vw) = (ar.w(x), ar.w(v));
        // a balanced decision tree over the first values of the pieces
        fn tree(z: &Z3, c: Ctx, va: Ast, vw: u32, w: u32, t: &[(u128, u128)]) -> Ast { unsafe {
            if t.len() == 1 { return if w == 1 { if t[0].1 != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { z.num(w, t[0].1) }; }
            let m = t.len() / 2;
            let g = Z3_mk_bvult(c, va, z.num(vw, t[m].0));
            let (a, b) = (tree(z, c, va, vw, w, &t[..m]), tree(z, c, va, vw, w, &t[m..]));
            Z3_mk_ite(c, g, a, b)
        } }
        tree(self, c, va, vw, w, t)
    }
    /// a fresh value for an arithmetic operator, with facts that hold of its true result
    unsafe fn abstracted(&mut self, ar: &Arena, x: Id, n: &Node, s: Sort) -> Ast {
        let c = self.c;
        let k = self.sym(&format!("ab{x}"));
        let r = Z3_mk_const(c, k, s);
        let not = |p: Ast| Z3_mk_not(c, p);
        let and = |v: &[Ast]| Z3_mk_and(c, v.len() as u32, v.as_ptr());
        let or = |v: &[Ast]| Z3_mk_or(c, v.len() as u32, v.as_ptr());
        let imp = |p: Ast, q: Ast| or(&[not(p), q]);
        let nan = |p: Ast| Z3_mk_fpa_is_nan(c, p);
        let inf = |p: Ast| Z3_mk_fpa_is_infinite(c, p);
        let zero = |p: Ast| Z3_mk_fpa_is_zero(c, p);
        let abs = |p: Ast| Z3_mk_fpa_abs(c, p);
        let leq = |p: Ast, q: Ast| Z3_mk_fpa_leq(c, p, q);
        let neg = |p: Ast| Z3_mk_fpa_is_negative(c, p);
        let a = self.float(ar, n.a);
        let mut l = vec![];
        if n.op == Op::FSqrt {
            l.push(Z3_mk_eq(c, nan(r), or(&[nan(a), and(&[neg(a), not(zero(a))])])));
            self.lemmas.insert(x, l);
            return r;
        }
        let b = self.float(ar, n.b);
        let zb = self.num(n.w as u32, 0);
        let z = Z3_mk_fpa_to_fp_bv(c, zb, s);
        let ob = self.num(n.w as u32, if n.w == 64 { 1.0f64.to_bits() as u128 } else { 1.0f32.to_bits() as u128 });
        let one = Z3_mk_fpa_to_fp_bv(c, ob, s);
        let any_nan = or(&[nan(a), nan(b)]);
        let ok = not(nan(r));
        let opp = Z3_mk_xor(c, neg(a), neg(b));
        match n.op {
            Op::FAdd => {
                l.push(Z3_mk_eq(c, nan(r), or(&[any_nan, and(&[inf(a), inf(b), opp])])));
                l.push(imp(and(&[ok, leq(z, a)]), leq(b, r)));
                l.push(imp(and(&[ok, leq(z, b)]), leq(a, r)));
                l.push(imp(and(&[ok, leq(a, z)]), leq(r, b)));
                l.push(imp(and(&[ok, leq(b, z)]), leq(r, a)));
                l.push(imp(and(&[zero(b), not(zero(a))]), Z3_mk_eq(c, r, a)));
                l.push(imp(and(&[zero(a), not(zero(b))]), Z3_mk_eq(c, r, b)));
            }
            Op::FMul => {
                l.push(Z3_mk_eq(c, nan(r), or(&[any_nan, and(&[inf(a), zero(b)]), and(&[zero(a), inf(b)])])));
                l.push(imp(ok, Z3_mk_eq(c, neg(r), opp)));
                l.push(imp(and(&[ok, leq(abs(b), one)]), leq(abs(r), abs(a))));
                l.push(imp(and(&[ok, leq(abs(a), one)]), leq(abs(r), abs(b))));
                l.push(imp(and(&[ok, leq(one, abs(b))]), leq(abs(a), abs(r))));
                l.push(imp(and(&[ok, leq(one, abs(a))]), leq(abs(b), abs(r))));
                l.push(imp(and(&[ok, Z3_mk_fpa_eq(c, a, one)]), Z3_mk_eq(c, r, b)));
                l.push(imp(and(&[ok, Z3_mk_fpa_eq(c, b, one)]), Z3_mk_eq(c, r, a)));
                l.push(imp(and(&[ok, or(&[zero(a), zero(b)])]), zero(r)));
            }
            Op::FDiv => {
                l.push(Z3_mk_eq(c, nan(r), or(&[any_nan, and(&[inf(a), inf(b)]), and(&[zero(a), zero(b)])])));
                l.push(imp(ok, Z3_mk_eq(c, neg(r), opp)));
                l.push(imp(and(&[ok, zero(b)]), inf(r)));
                l.push(imp(and(&[ok, zero(a)]), zero(r)));
                l.push(imp(and(&[ok, leq(one, abs(b))]), leq(abs(r), abs(a))));
                l.push(imp(and(&[ok, leq(abs(b), one)]), leq(abs(a), abs(r))));
                l.push(imp(and(&[ok, leq(abs(b), abs(a))]), leq(one, abs(r))));
                l.push(imp(and(&[ok, leq(abs(a), abs(b))]), leq(abs(r), one)));
            }
            _ => unreachable!(),
        }
        self.lemmas.insert(x, l);
        r
    }
    unsafe fn sym(&self, s: &str) -> Sym { let s = CString::new(s).unwrap(); Z3_mk_string_symbol(self.c, s.as_ptr()) }
    unsafe fn num(&self, w: u32, v: u128) -> Ast {
        let t = Z3_mk_bv_sort(self.c, w);
        if v <= u64::MAX as u128 { return Z3_mk_unsigned_int64(self.c, v as u64, t); }
        let s = CString::new(v.to_string()).unwrap();
        Z3_mk_numeral(self.c, s.as_ptr(), t)
    }
    unsafe fn fsort(&self, w: u32) -> Sort { if w == 64 { Z3_mk_fpa_sort_64(self.c) } else { assert_eq!(w, 32); Z3_mk_fpa_sort_32(self.c) } }

    /// Translates all nodes below `x` bottom-up (so that the recursion in the typed getters stays shallow).
    unsafe fn prepare(&mut self, ar: &Arena, x: Id) {
        let mut stack = vec![(x, false)];
        while let Some((y, done)) = stack.pop() {
            if self.bv.contains_key(&y) || self.bl.contains_key(&y) || self.fp.contains_key(&y) { continue; }
            let n = ar.nodes[y as usize];
            let k = if self.tabled(ar, y).is_some() { 0 } else { Arena::arity(n.op) };
            if !done && k > 0 {
                stack.push((y, true));
                stack.push((n.a, false));
                if k >= 2 { stack.push((n.b, false)); }
                if k >= 3 { stack.push((n.c, false)); }
                continue;
            }
            if n.w == 1 { self.boolean(ar, y); }
            else if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::SToF | Op::UToF | Op::FCvt | Op::FRnd | Op::FTrans | Op::FTrans2) { self.float(ar, y); }
            else { self.bits(ar, y); }
        }
    }
    unsafe fn boolean(&mut self, ar: &Arena, x: Id) -> Ast {
        if let Some(&a) = self.bl.get(&x) { return a; }
        let c = self.c;
        let n = ar.nodes[x as usize];
        debug_assert_eq!(n.w, 1);
        if let Some(t) = self.tabled(ar, x) { let r = self.from_table(ar, x, &t); self.bl.insert(x, r); return r; }
        let r = match n.op {
            Op::Const => if n.imm != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Op::And => { let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            Op::Or => { let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::Xor => {
                if ar.cval(n.b) == Some(1) { let a = self.boolean(ar, n.a); Z3_mk_not(c, a) }
                else { let (a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b)); Z3_mk_xor(c, a, b) }
            }
            Op::Ite => { let (a, b, d) = (self.boolean(ar, n.a), self.boolean(ar, n.b), self.boolean(ar, n.c)); Z3_mk_ite(c, a, b, d) }
            Op::Eq => if ar.w(n.a) == 1 {
                let (a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                Z3_mk_eq(c, a, b)
            } else {
                let (a, b) = (self.bits(ar, n.a), self.bits(ar, n.b));
                Z3_mk_eq(c, a, b)
            },
            Op::Ult => { let (a, b) = (self.bits(ar, n.a), self.bits(ar, n.b)); Z3_mk_bvult(c, a, b) }
            Op::Ule => { let (a, b) = (self.bits(ar, n.a), self.bits(ar, n.b)); Z3_mk_bvule(c, a, b) }
            Op::Slt => { let (a, b) = (self.bits(ar, n.a), self.bits(ar, n.b)); Z3_mk_bvslt(c, a, b) }
            Op::Sle => { let (a, b) = (self.bits(ar, n.a), self.bits(ar, n.b)); Z3_mk_bvsle(c, a, b) }
            Op::FEq => { let (a, b) = (self.float(ar, n.a), self.float(ar, n.b)); Z3_mk_fpa_eq(c, a, b) }
            Op::FLt => { let (a, b) = (self.float(ar, n.a), self.float(ar, n.b)); Z3_mk_fpa_lt(c, a, b) }
            Op::FLe => { let (a, b) = (self.float(ar, n.a), self.float(ar, n.b)); Z3_mk_fpa_leq(c, a, b) }
            Op::FNan => { let a = self.float(ar, n.a); Z3_mk_fpa_is_nan(c, a) }
            _ => {
                let b = self.bits(ar, x);
                let one = self.num(1, 1);
                Z3_mk_eq(c, b, one)
            }
        };
        self.bl.insert(x, r);
        r
    }
    unsafe fn float(&mut self, ar: &Arena, x: Id) -> Ast {
        if let Some(&a) = self.fp.get(&x) { return a; }
        let c = self.c;
        let n = ar.nodes[x as usize];
        let s = self.fsort(n.w as u32);
        let rne = Z3_mk_fpa_rne(c);
        if let Some(t) = self.tabled(ar, x) { let b = self.from_table(ar, x, &t); let r = Z3_mk_fpa_to_fp_bv(c, b, s); self.fp.insert(x, r); return r; }
        let r = match n.op {
            Op::FAdd | Op::FMul | Op::FDiv | Op::FSqrt if self.abs => self.abstracted(ar, x, &n, s),
            Op::FAdd => { let (a, b) = (self.float(ar, n.a), self.float(ar, n.b)); Z3_mk_fpa_add(c, rne, a, b) }
            Op::FSub => { let (a, b) = (self.float(ar, n.a), self.float(ar, n.b)); Z3_mk_fpa_sub(c, rne, a, b) }
            Op::FMul => { let (a, b) = (self.float(ar, n.a), self.float(ar, n.b)); Z3_mk_fpa_mul(c, rne, a, b) }
            Op::FDiv => { let (a, b) = (self.float(ar, n.a), self.float(ar, n.b)); Z3_mk_fpa_div(c, rne, a, b) }
            Op::FSqrt => { let a = self.float(ar, n.a); Z3_mk_fpa_sqrt(c, rne, a) }
            Op::FCvt => { let a = self.float(ar, n.a); Z3_mk_fpa_to_fp_float(c, rne, a, s) }
            Op::FRnd => {
                let a = self.float(ar, n.a);
                let rm = match n.imm { 0 => Z3_mk_fpa_rtz(c), 1 => Z3_mk_fpa_rtn(c), 2 => Z3_mk_fpa_rtp(c), 3 => Z3_mk_fpa_rna(c), _ => rne };
                Z3_mk_fpa_round_to_integral(c, rm, a)
            }
            Op::SToF => { let a = self.bits(ar, n.a); Z3_mk_fpa_to_fp_signed(c, rne, a, s) }
            Op::UToF => { let a = self.bits(ar, n.a); Z3_mk_fpa_to_fp_unsigned(c, rne, a, s) }
            Op::FRem => {
                // axiomatised: a fresh value constrained by the facts that determine |a % b| up to the quotient
                let (a, b) = (self.float(ar, n.a), self.float(ar, n.b));
                let k = self.sym(&format!("rem{x}"));
                let r = Z3_mk_const(c, k, s);
                let (fa, fb, fr) = (Z3_mk_fpa_abs(c, a), Z3_mk_fpa_abs(c, b), Z3_mk_fpa_abs(c, r));
                let bad = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b), Z3_mk_fpa_is_infinite(c, a), Z3_mk_fpa_is_zero(c, b)];
                let bad = Z3_mk_or(c, 4, bad.as_ptr());
                let ok = Z3_mk_not(c, bad);
                let l1 = Z3_mk_eq(c, Z3_mk_fpa_is_nan(c, r), bad);
                let imp = |p: Ast, q: Ast| { let v = [Z3_mk_not(c, p), q]; Z3_mk_or(c, 2, v.as_ptr()) };
                let both = |p: Ast, q: Ast| { let v = [p, q]; Z3_mk_and(c, 2, v.as_ptr()) };
                let l2 = imp(ok, both(Z3_mk_fpa_lt(c, fr, fb), Z3_mk_fpa_leq(c, fr, fa)));
                let l3 = imp(ok, Z3_mk_eq(c, Z3_mk_fpa_is_negative(c, r), Z3_mk_fpa_is_negative(c, a)));
                let small = Z3_mk_fpa_lt(c, fa, fb);
                let l4 = imp(both(ok, small), Z3_mk_eq(c, r, a));
                let twice = Z3_mk_fpa_add(c, rne, fb, fb);
                let mid = both(Z3_mk_fpa_leq(c, fb, fa), Z3_mk_fpa_lt(c, fa, twice));
                let l5 = imp(both(ok, mid), Z3_mk_fpa_eq(c, fr, Z3_mk_fpa_sub(c, rne, fa, fb)));
                self.lemmas.insert(x, vec![l1, l2, l3, l4, l5]);
                r
            }
            Op::Xor if n.w as u32 == 64 && ar.cval(n.b) == Some(1 << 63) || n.w as u32 == 32 && n.op == Op::Xor && ar.cval(n.b) == Some(1 << 31) => { let a = self.float(ar, n.a); Z3_mk_fpa_neg(c, a) }
            Op::ZExt if n.w == 64 && ar.w(n.a) == 63 && ar.op(n.a) == Op::Extract && ar.nodes[n.a as usize].imm == 0 && ar.w(ar.nodes[n.a as usize].a) == 64 => {
                let a = self.float(ar, ar.nodes[n.a as usize].a);
                Z3_mk_fpa_abs(c, a)
            }
            Op::ZExt if n.w == 32 && ar.w(n.a) == 31 && ar.op(n.a) == Op::Extract && ar.nodes[n.a as usize].imm == 0 && ar.w(ar.nodes[n.a as usize].a) == 32 => {
                let a = self.float(ar, ar.nodes[n.a as usize].a);
                Z3_mk_fpa_abs(c, a)
            }
            Op::Ite => { let g = self.boolean(ar, n.a); let (a, b) = (self.float(ar, n.b), self.float(ar, n.c)); Z3_mk_ite(c, g, a, b) }
            _ => { let b = self.bits(ar, x); Z3_mk_fpa_to_fp_bv(c, b, s) }
        };
        self.fp.insert(x, r);
        r
    }
    unsafe fn bits(&mut self, ar: &Arena, x: Id) -> Ast {
        if let Some(&a) = self.bv.get(&x) { return a; }
        self.n_ast += 1;
        let c = self.c;
        let n = ar.nodes[x as usize];
        let w = n.w as u32;
        if w > 1 { if let Some(t) = self.tabled(ar, x) { let r = self.from_table(ar, x, &t); self.bv.insert(x, r); return r; } }
        macro_rules! b2 { ($f:ident) => {{ let (a, b) = (self.bits(ar, n.a), self.bits(ar, n.b)); $f(c, a, b) }} }
        let r = match n.op {
            Op::Const => self.num(w, n.imm),
            Op::Var => { let s = self.sym(&format!("v{}", n.imm)); Z3_mk_const(c, s, Z3_mk_bv_sort(c, w)) }
            Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul),
            Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
            Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor),
            Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
            Op::Concat => b2!(Z3_mk_concat),
            Op::Extract => { let a = self.bits(ar, n.a); Z3_mk_extract(c, n.imm as u32 + w - 1, n.imm as u32, a) }
            Op::ZExt => { let a = self.bits(ar, n.a); Z3_mk_zero_ext(c, w - ar.w(n.a), a) }
            Op::SExt => { let a = self.bits(ar, n.a); Z3_mk_sign_ext(c, w - ar.w(n.a), a) }
            Op::Ite => { let g = self.boolean(ar, n.a); let (a, b) = (self.bits(ar, n.b), self.bits(ar, n.c)); Z3_mk_ite(c, g, a, b) }
            Op::FToS => { let a = self.float(ar, n.a); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, w) }
            Op::FToU => { let a = self.float(ar, n.a); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, w) }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::SToF | Op::UToF | Op::FCvt | Op::FRnd | Op::FTrans | Op::FTrans2 => {
                let f = self.float(ar, x);
                let nan = self.num(w, if w == 64 { 0x7ff8000000000000 } else { 0x7fc00000 });
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), nan, Z3_mk_fpa_to_ieee_bv(c, f))
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FNan => {
                let g = self.boolean(ar, x);
                let (o, z) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(c, g, o, z)
            }
        };
        self.bv.insert(x, r);
        r
    }
    fn scan(&mut self, ar: &Arena, cs: &[Id]) -> (Vec<Id>, Vec<Id>, bool) {
        let mut seen: FxMap<Id, ()> = Default::default();
        let (mut rems, mut arith, mut has_fp) = (vec![], vec![], false);
        let mut stack = cs.to_vec();
        while let Some(y) = stack.pop() {
            if seen.insert(y, ()).is_some() || self.tabled(ar, y).is_some() { continue; }
            let n = ar.nodes[y as usize];
            if n.op == Op::FRem { rems.push(y); }
            if matches!(n.op, Op::FAdd | Op::FMul | Op::FDiv | Op::FSqrt) { arith.push(y); }
            if n.op >= Op::FAdd { has_fp = true; }
            let k = Arena::arity(n.op);
            if k >= 1 { stack.push(n.a); }
            if k >= 2 { stack.push(n.b); }
            if k >= 3 { stack.push(n.c); }
        }
        rems.sort_unstable();
        arith.sort_unstable();
        (rems, arith, has_fp)
    }
    /// Checks the conjunction of `cs`. Queries with floating-point arithmetic are first tried with the arithmetic
    /// abstracted (sound facts, refined at the points of refuted models); what that leaves open is decided exactly.
    pub fn check(&mut self, ar: &Arena, cs: &[Id], timeout_ms: u32, dump: Option<&str>) -> (Res, bool) {
        let (rems, arith, has_fp) = self.scan(ar, cs);
        if !arith.is_empty() {
            self.mode(true);
            let mut fresh = arith.clone();
            fresh.extend_from_slice(&rems);
            let r = unsafe { self.solve(ar, cs, &fresh, timeout_ms.min(20_000), dump, has_fp, 8) };
            self.mode(false);
            if !matches!(r, Res::Unknown) { self.abs_hits += 1; return (r, has_fp); }
        }
        (unsafe { self.solve(ar, cs, &rems, timeout_ms, dump, has_fp, 24) }, has_fp)
    }
    /// Every model is re-evaluated by the native evaluator; a model that relies on a spurious value of an
    /// axiomatised operator is refuted by adding that point's true value and solving again.
    unsafe fn solve(&mut self, ar: &Arena, cs: &[Id], fresh: &[Id], timeout_ms: u32, dump: Option<&str>, has_fp: bool, rounds: usize) -> Res {
        for &x in cs { self.prepare(ar, x); }
        let asts: Vec<Ast> = cs.iter().map(|&x| self.boolean(ar, x)).collect();
        let c = self.c;
        let mut extra: Vec<Ast> = vec![];
        for r in fresh { if let Some(l) = self.lemmas.get(r) { extra.extend_from_slice(l); } }
        for round in 0..rounds {
            let l = self.sym(if has_fp { "QF_FPBV" } else { "QF_BV" });
            let s = Z3_mk_solver_for_logic(c, l);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, self.sym("timeout"), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for &a in asts.iter().chain(extra.iter()) { Z3_solver_assert(c, s, a); }
            if let Some(path) = dump {
                let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(path, format!("(set-logic ALL)\n{t}(check-sat)\n"));
            }
            let r = Z3_solver_check(c, s);
            let res = match r {
                -1 => Some(Res::Unsat),
                0 => Some(Res::Unknown),
                _ => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut model = Model::default();
                    let mut vars: Vec<u32> = cs.iter().flat_map(|&x| ar.vars[x as usize].iter().copied()).collect();
                    vars.sort_unstable();
                    vars.dedup();
                    for (&id, &ast) in self.bv.iter() {
                        let n = ar.nodes[id as usize];
                        if n.op != Op::Var || vars.binary_search(&(n.imm as u32)).is_err() { continue; }
                        model.insert(n.imm as u32, self.model_val(m, ast));
                    }
                    for (&id, &ast) in self.bl.iter() {
                        let n = ar.nodes[id as usize];
                        if n.op != Op::Var || vars.binary_search(&(n.imm as u32)).is_err() || self.bv.contains_key(&id) { continue; }
                        let bit = Z3_mk_ite(c, ast, self.num(1, 1), self.num(1, 0));
                        model.insert(n.imm as u32, self.model_val(m, bit));
                    }
                    let mut cache = Default::default();
                    let good = cs.iter().all(|&x| ar.eval(x, &model, &mut cache) == 1);
                    let out = if good { Some(Res::Sat(model)) } else if fresh.is_empty() {
                        eprintln!("symx: a solver model does not satisfy the constraints under the evaluator");
                        if let Ok(d) = std::env::var("SYMX_DEBUG") {
                            let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                            let _ = std::fs::write(format!("{d}/mismatch.smt2"), t);
                        }
                        Some(Res::Unknown)
                    } else {
                        for &r in fresh {
                            let n = ar.nodes[r as usize];
                            let two = n.op != Op::FSqrt;
                            let va = ar.eval(n.a, &model, &mut cache);
                            let vb = if two { ar.eval(n.b, &model, &mut cache) } else { 0 };
                            let vr = ar.eval(r, &model, &mut cache);
                            let w = n.w as u32;
                            let mut k = |v: u128| { let s = self.fsort(w); let b = self.num(w, v); Z3_mk_fpa_to_fp_bv(c, b, s) };
                            let (ka, kb, kr) = (k(va), k(vb), k(vr));
                            let (ta, tr) = (self.float(ar, n.a), self.float(ar, r));
                            let mut v = vec![Z3_mk_not(c, Z3_mk_eq(c, ta, ka)), Z3_mk_eq(c, tr, kr)];
                            if two { let tb = self.float(ar, n.b); v.push(Z3_mk_not(c, Z3_mk_eq(c, tb, kb))); }
                            extra.push(Z3_mk_or(c, v.len() as u32, v.as_ptr()));
                        }
                        None
                    };
                    Z3_model_dec_ref(c, m);
                    out
                }
            };
            Z3_solver_dec_ref(c, s);
            if let Some(r) = res { return r; }
        }
        Res::Unknown
    }
    unsafe fn model_val(&self, m: ModelP, a: Ast) -> u128 {
        let mut v: Ast = std::ptr::null_mut();
        if !Z3_model_eval(self.c, m, a, true, &mut v) { return 0; }
        let mut x = 0u64;
        if Z3_get_numeral_uint64(self.c, v, &mut x) { return x as u128; }
        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, v)).to_string_lossy().into_owned();
        s.parse().unwrap_or(0)
    }
}
