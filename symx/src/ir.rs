//! Parser for the textual LLVM IR that rustc emits after whole-program LTO.
//!
//! Only what the symbolic executor needs is kept: types with their layout, instructions with dense register numbers, and
//! constant initialisers. Attributes, metadata and poison-generating flags are skipped.

use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Meta,
}

#[derive(Clone, Debug)]
pub enum K {
    I(u128),
    A(Vec<K>),
    B(Vec<u8>),
    Z,
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToSi, FpToUi, SiToFp, UiToFp, Bits }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IPred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }

#[derive(Clone, Debug)]
pub struct Target { pub block: u32, pub copies: Vec<(u32, Opd)> }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Reg(Opd) }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bin, ty: TyId, d: u32, a: Opd, b: Opd },
    FNeg { ty: TyId, d: u32, a: Opd },
    ICmp { p: IPred, ty: TyId, d: u32, a: Opd, b: Opd },
    FCmp { p: FPred, ty: TyId, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: TyId, to: TyId, d: u32, a: Opd },
    Load { ty: TyId, d: u32, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Alloca { d: u32, size: u64, align: u64 },
    Select { ty: TyId, d: u32, c: Opd, cv: bool, a: Opd, b: Opd },
    Call { d: Option<u32>, ret: TyId, f: Callee, args: Vec<(TyId, Opd)> },
    ExtractValue { d: u32, a: Opd, path: Vec<u32> },
    InsertValue { d: u32, ty: TyId, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElem { d: u32, a: Opd, i: Opd },
    InsertElem { d: u32, ty: TyId, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, ty: TyId, a: Opd, b: Opd, mask: Vec<i64> },
    Copy { d: u32, a: Opd },
    Rmw { op: String, ty: TyId, d: u32, p: Opd, v: Opd },
    CmpXchg { ty: TyId, d: u32, p: Opd, c: Opd, n: Opd },
    Br(Target),
    CondBr(Opd, Target, Target),
    Switch { ty: TyId, v: Opd, def: Target, cases: Vec<(u128, Target)> },
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Vec<I>>,
    pub defined: bool,
    /// Byte range of the body text (bodies are parsed on first use).
    pub body: (usize, usize),
    pub header: (usize, usize),
    pub parsed: bool,
}

#[derive(Debug)]
pub struct Global { pub name: String, pub ty: TyId, pub init: (usize, usize), pub constant: bool, pub size: u64, pub external: bool }

pub struct Module {
    pub text: Vec<u8>,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    pub layout: Vec<(u64, u64)>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fmap: HashMap<Vec<u8>, u32>,
    pub gmap: HashMap<Vec<u8>, u32>,
    pub named: HashMap<Vec<u8>, TyId>,
    pub pool: Vec<(TyId, K)>,
    pub aliases: HashMap<Vec<u8>, (usize, usize)>,
}

pub const FN_BASE: u64 = 0x4000_0000_0000_0000;
pub fn fn_addr(i: u32) -> u64 { FN_BASE + (i as u64) * 16 }
pub fn global_addr(i: u32) -> u64 { ((i as u64) + 1) << 32 }

struct P<'a> { s: &'a [u8], i: usize, end: usize }

fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'-' | b'$' | b'.' | b'_') }

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.end && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; }
            if self.i + 1 < self.end && self.s[self.i] == b'/' && self.s[self.i + 1] == b'*' {
                self.i += 2;
                while !(self.s[self.i] == b'*' && self.s[self.i + 1] == b'/') { self.i += 1; }
                self.i += 2;
                continue;
            }
            if self.i < self.end && self.s[self.i] == b';' { while self.i < self.end && self.s[self.i] != b'\n' { self.i += 1; } continue; }
            return;
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.end { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected {:?}", c as char)) } }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(120);
        let b = (self.i + 80).min(self.s.len());
        panic!("IR parse: {m} near ...{}<<HERE>>{}...", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
    }
    /// The identifier-like word at the cursor (may be empty).
    fn word_at(&mut self) -> &'a [u8] {
        self.ws();
        let a = self.i;
        let mut j = a;
        while j < self.end && is_name(self.s[j]) { j += 1; }
        &self.s[a..j]
    }
    fn word(&mut self) -> &'a [u8] { let w = self.word_at(); self.i += w.len(); w }
    fn eat_word(&mut self, w: &[u8]) -> bool { if self.word_at() == w { self.i += w.len(); true } else { false } }
    /// After `%` or `@`.
    fn name(&mut self) -> Vec<u8> {
        if self.i < self.end && self.s[self.i] == b'"' {
            self.i += 1;
            let a = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = self.s[a..self.i].to_vec();
            self.i += 1;
            return r;
        }
        let a = self.i;
        while self.i < self.end && is_name(self.s[self.i]) { self.i += 1; }
        self.s[a..self.i].to_vec()
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut depth = 0;
        loop {
            let c = self.s[self.i];
            match c {
                b'(' | b'[' | b'{' => depth += 1,
                b')' | b']' | b'}' => depth -= 1,
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => (),
            }
            self.i += 1;
            if depth == 0 { return; }
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.i < self.end && self.s[self.i] == b'-';
        if neg { self.i += 1; }
        let mut v: u128 = 0;
        let a = self.i;
        while self.i < self.end && self.s[self.i].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.s[self.i] - b'0') as u128); self.i += 1; }
        if a == self.i { self.fail("integer expected") }
        if neg { (v as i128).wrapping_neg() } else { v as i128 }
    }
}

fn is_type_word(w: &[u8]) -> bool {
    w == b"ptr" || w == b"void" || w == b"float" || w == b"double" || w == b"metadata" || w == b"label"
        || (w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn parse(text: Vec<u8>) -> Module {
        let mut m = Module { text: vec![], tys: vec![], tymap: HashMap::new(), layout: vec![], funcs: vec![], globals: vec![], fmap: HashMap::new(), gmap: HashMap::new(), named: HashMap::new(), pool: vec![], aliases: HashMap::new() };
        m.ty(Ty::Void);
        // pass 1: names
        let n = text.len();
        let mut i = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        while i < n {
            let mut j = i;
            while j < n && text[j] != b'\n' { j += 1; }
            match text[i] {
                b'@' => gl.push((i, j)),
                b'd' if text[i..j].starts_with(b"define ") || text[i..j].starts_with(b"declare ") => {
                    let at = (i..j).find(|&k| text[k] == b'@').unwrap();
                    let mut p = P { s: &text, i: at + 1, end: j };
                    let name = p.name();
                    let defined = text[i + 2] == b'f';
                    let mut f = Func { name: String::from_utf8_lossy(&name).into_owned(), defined, header: (i, j), ..Default::default() };
                    if defined {
                        let b0 = j + 1;
                        let mut k = b0;
                        loop {
                            if text[k] == b'}' && text[k - 1] == b'\n' { break; }
                            while text[k] != b'\n' { k += 1; }
                            k += 1;
                        }
                        f.body = (b0, k);
                        j = k;
                    }
                    m.fmap.insert(name, m.funcs.len() as u32);
                    m.funcs.push(f);
                }
                _ => (),
            }
            i = j + 1;
        }
        for n in ["llvm.sqrt.f64", "llvm.sqrt.f32"] {
            if m.fmap.contains_key(n.as_bytes()) { continue; }
            m.fmap.insert(n.as_bytes().to_vec(), m.funcs.len() as u32);
            m.funcs.push(Func { name: n.to_string(), nregs: 0, params: vec![], blocks: vec![], defined: false, body: (0, 0), header: (0, 0), parsed: false });
        }
        let mut inits = vec![];
        for &(a, b) in &gl {
            let mut p = P { s: &text, i: a + 1, end: b };
            let name = p.name();
            p.expect(b'=');
            let mut constant = false;
            let mut external = false;
            loop {
                let w = p.word_at();
                if w == b"constant" || w == b"global" { constant = w == b"constant"; p.word(); break; }
                if w == b"external" { external = true; }
                if w == b"alias" { break; }
                if w.is_empty() { p.fail("global header"); }
                p.word();
                if p.peek() == b'(' { p.skip_balanced(); }
            }
            if p.word_at() == b"alias" { m.aliases.insert(name, (p.i, b)); continue; }
            m.gmap.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(Global { name: String::from_utf8_lossy(&name).into_owned(), ty: 0, init: (0, 0), constant, size: 0, external });
            inits.push((p.i, b));
        }
        m.text = text;
        let text = std::mem::take(&mut m.text);
        for (g, (a, b)) in inits.into_iter().enumerate() {
            let mut p = P { s: &text, i: a, end: b };
            let t = m.ptype(&mut p);
            m.globals[g].ty = t;
            m.globals[g].size = m.size(t);
            m.globals[g].init = (p.i, b);
        }
        m.text = text;
        m
    }
    pub fn global_init(&mut self, g: u32) -> (TyId, K) {
        let text = std::mem::take(&mut self.text);
        let gl = &self.globals[g as usize];
        let (ty, (a, b), ext) = (gl.ty, gl.init, gl.external);
        let k = if ext { K::Z } else { let mut p = P { s: &text, i: a, end: b }; self.pconst(&mut p, ty) };
        self.text = text;
        (ty, k)
    }
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let l = match &t {
            Ty::Void | Ty::Meta => (0, 1),
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = b.next_power_of_two().min(16); ((b + a - 1) / a * a, a) }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Arr(n, e) => { let (s, a) = self.layout[*e as usize]; (n * s, a) }
            Ty::Vec(n, e) => {
                let bits = match self.tys[*e as usize] { Ty::Int(w) => w as u64, _ => self.layout[*e as usize].0 * 8 };
                let s = (bits * *n as u64 + 7) / 8;
                let s = s.next_power_of_two();
                (s, s)
            }
            Ty::Struct(fs, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for f in fs {
                    let (s, a) = self.layout[*f as usize];
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
        };
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.layout.push(l);
        self.tymap.insert(t, i);
        i
    }
    pub fn size(&self, t: TyId) -> u64 { self.layout[t as usize].0 }
    pub fn offset(&self, t: TyId, idx: usize) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    let (s, a) = self.layout[*f as usize];
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if k == idx { return (o, *f); }
                    o += s;
                }
                panic!("struct index")
            }
            Ty::Arr(_, e) => (idx as u64 * self.size(*e), *e),
            Ty::Vec(_, e) => (idx as u64 * self.size(*e), *e),
            t => panic!("index into {t:?}"),
        }
    }
    /// Bit width of a scalar type.
    pub fn width(&self, t: TyId) -> u32 {
        match self.tys[t as usize] { Ty::Int(w) => w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 }
    }

    fn ptype(&mut self, p: &mut P) -> TyId {
        match p.peek() {
            b'[' => {
                p.i += 1;
                let n = p.int() as u64;
                if !p.eat_word(b"x") { p.fail("x") }
                let e = self.ptype(p);
                p.expect(b']');
                self.ty(Ty::Arr(n, e))
            }
            b'{' => { p.i += 1; let fs = self.pfields(p, b'}'); self.ty(Ty::Struct(fs, false)) }
            b'<' => {
                p.i += 1;
                if p.eat(b'{') {
                    let fs = self.pfields(p, b'}');
                    p.expect(b'>');
                    self.ty(Ty::Struct(fs, true))
                } else {
                    let n = p.int() as u32;
                    if !p.eat_word(b"x") { p.fail("x") }
                    let e = self.ptype(p);
                    p.expect(b'>');
                    self.ty(Ty::Vec(n, e))
                }
            }
            b'%' => { p.i += 1; let n = p.name(); match self.named.get(&n) { Some(&t) => t, None => p.fail("named type") } }
            _ => {
                let w = p.word();
                match w {
                    b"ptr" => self.ty(Ty::Ptr),
                    b"void" => self.ty(Ty::Void),
                    b"float" => self.ty(Ty::F32),
                    b"double" => self.ty(Ty::F64),
                    b"metadata" | b"label" => self.ty(Ty::Meta),
                    _ if w.len() > 1 && w[0] == b'i' => { let n: u32 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| p.fail("type")); self.ty(Ty::Int(n)) }
                    _ => p.fail("type"),
                }
            }
        }
    }
    fn pfields(&mut self, p: &mut P, close: u8) -> Vec<TyId> {
        let mut fs = vec![];
        if p.eat(close) { return fs; }
        loop {
            fs.push(self.ptype(p));
            if p.eat(close) { return fs; }
            p.expect(b',');
        }
    }
    fn sym_addr(&mut self, name: &[u8], p: &P) -> u64 {
        if let Some(&f) = self.fmap.get(name) { return fn_addr(f); }
        if let Some(&g) = self.gmap.get(name) { return global_addr(g); }
        p.fail(&format!("unknown symbol {}", String::from_utf8_lossy(name)))
    }
    fn kint(&self, k: &K) -> u128 { match k { K::I(v) => *v, K::Z => 0, _ => panic!("scalar constant expected") } }
    fn mask_ty(&self, t: TyId, v: u128) -> u128 { let w = self.width(t); if w == 0 || w >= 128 { v } else { v & ((1u128 << w) - 1) } }

    fn pconst(&mut self, p: &mut P, t: TyId) -> K {
        match p.peek() {
            b'@' => { p.i += 1; let n = p.name(); K::I(self.sym_addr(&n, p) as u128) }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        let h = |c: u8| (c as char).to_digit(16);
                        if p.s[p.i + 1] == b'\\' { v.push(b'\\'); p.i += 2; }
                        else { v.push((h(p.s[p.i + 1]).unwrap() * 16 + h(p.s[p.i + 2]).unwrap()) as u8); p.i += 3; }
                    } else { v.push(p.s[p.i]); p.i += 1; }
                }
                p.i += 1;
                K::B(v)
            }
            b'[' | b'{' | b'<' => {
                let mut open = 1;
                if p.s[p.i] == b'<' && p.s[p.i + 1] == b'{' { open = 2; }
                p.i += open;
                let mut v = vec![];
                loop {
                    let c = p.peek();
                    if c == b']' || c == b'}' || c == b'>' { break; }
                    let et = self.ptype(p);
                    v.push(self.pconst(p, et));
                    if !p.eat(b',') { break; }
                }
                p.ws();
                p.i += open;
                K::A(v)
            }
            c if c == b'-' || c.is_ascii_digit() => {
                if matches!(self.tys[t as usize], Ty::F32 | Ty::F64) { return K::I(self.pfloat(p, t)); }
                let v = p.int() as u128;
                K::I(self.mask_ty(t, v))
            }
            b'+' if matches!(self.tys[t as usize], Ty::F32 | Ty::F64) => K::I(self.pfloat(p, t)),
            _ => {
                let w = p.word();
                match w {
                    b"true" => K::I(1),
                    b"false" | b"null" => K::I(0),
                    b"undef" | b"poison" | b"zeroinitializer" | b"none" => K::Z,
                    b"getelementptr" => {
                        while p.peek() != b'(' { p.word(); if p.peek() == b'(' && &p.s[p.i - 7..p.i] == b"inrange" { p.skip_balanced(); } }
                        p.expect(b'(');
                        let et = self.ptype(p);
                        p.expect(b',');
                        let bt = self.ptype(p);
                        let b = self.pconst(p, bt);
                        let mut a = self.kint(&b) as u64;
                        let mut cur = et;
                        let mut first = true;
                        while p.eat(b',') {
                            let it = self.ptype(p);
                            let k = self.pconst(p, it);
                            let iw = self.width(it);
                            let v = crate::expr::sext(self.kint(&k), iw) as i64;
                            if first { a = a.wrapping_add((v as u64).wrapping_mul(self.size(et))); first = false; }
                            else { let (o, n) = match self.tys[cur as usize] { Ty::Struct(..) => self.offset(cur, v as usize), _ => { let (o, n) = self.offset(cur, 1); ((v as u64).wrapping_mul(o), n) } }; a = a.wrapping_add(o); cur = n; }
                        }
                        p.expect(b')');
                        K::I(a as u128)
                    }
                    b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"zext" | b"sext" | b"ptrtoaddr" => {
                        while p.peek() != b'(' { p.word(); }
                        p.expect(b'(');
                        let ft = self.ptype(p);
                        let k = self.pconst(p, ft);
                        if !p.eat_word(b"to") { p.fail("to") }
                        let tt = self.ptype(p);
                        p.expect(b')');
                        let v = self.kint(&k);
                        K::I(self.mask_ty(tt, v))
                    }
                    b"add" | b"sub" | b"mul" | b"xor" | b"and" | b"or" | b"shl" | b"lshr" => {
                        while p.peek() != b'(' { p.word(); }
                        p.expect(b'(');
                        let ft = self.ptype(p);
                        let a = self.pconst(p, ft);
                        p.expect(b',');
                        let ft = self.ptype(p);
                        let b = self.pconst(p, ft);
                        p.expect(b')');
                        let (a, b) = (self.kint(&a), self.kint(&b));
                        let v = match w { b"add" => a.wrapping_add(b), b"sub" => a.wrapping_sub(b), b"mul" => a.wrapping_mul(b), b"xor" => a ^ b, b"and" => a & b, b"or" => a | b, b"shl" => a << b, _ => a >> b };
                        K::I(self.mask_ty(ft, v))
                    }
                    b"splat" => {
                        p.expect(b'(');
                        let et = self.ptype(p);
                        let k = self.pconst(p, et);
                        p.expect(b')');
                        let n = match self.tys[t as usize] { Ty::Vec(n, _) => n, _ => p.fail("splat type") };
                        K::A(vec![k; n as usize])
                    }
                    b"nan" | b"inf" | b"f0x" | b"snan" | b"qnan" => p.fail("float constant"),
                    _ if w.starts_with(b"f0x") => K::I(u128::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).unwrap_or_else(|_| p.fail("float bits"))),
                    _ => { p.i -= w.len(); p.fail("constant") }
                }
            }
        }
    }
    fn pfloat(&mut self, p: &mut P, t: TyId) -> u128 {
        p.ws();
        let f32_ = self.tys[t as usize] == Ty::F32;
        let a = p.i;
        if p.s[p.i] == b'0' && p.s[p.i + 1] == b'x' {
            p.i += 2;
            let b = p.i;
            while p.i < p.end && p.s[p.i].is_ascii_hexdigit() { p.i += 1; }
            let bits = u64::from_str_radix(std::str::from_utf8(&p.s[b..p.i]).unwrap(), 16).unwrap();
            return if f32_ { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 };
        }
        while p.i < p.end && (is_name(p.s[p.i]) || p.s[p.i] == b'+') { p.i += 1; }
        let w = std::str::from_utf8(&p.s[a..p.i]).unwrap();
        let v: f64 = match w { "+inf" | "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "+qnan" | "qnan" | "nan" | "+nan" => f64::NAN, "-qnan" | "-nan" => -f64::NAN, _ => w.parse().unwrap_or_else(|_| p.fail("float")) };
        if f32_ { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
    }
    fn kopd(&mut self, t: TyId, k: K) -> Opd {
        match (&k, &self.tys[t as usize]) {
            (K::I(v), _) if *v <= u64::MAX as u128 && self.width(t) <= 64 => Opd::C(*v as u64),
            (K::Z, Ty::Int(w)) if *w <= 64 => Opd::C(0),
            (K::Z, Ty::Ptr | Ty::F32 | Ty::F64) => Opd::C(0),
            _ => { self.pool.push((t, k)); Opd::K(self.pool.len() as u32 - 1) }
        }
    }
    fn pval(&mut self, p: &mut P, t: TyId, regs: &mut Regs) -> Opd {
        if p.peek() == b'%' { p.i += 1; let n = p.name(); return Opd::R(regs.get(n)); }
        if self.tys[t as usize] == Ty::Meta {
            // metadata operand: skip
            while p.i < p.end && p.s[p.i] != b',' && p.s[p.i] != b')' { if p.s[p.i] == b'(' { p.skip_balanced(); } else { p.i += 1; } }
            return Opd::C(0);
        }
        let k = self.pconst(p, t);
        self.kopd(t, k)
    }
    fn skip_attrs(&mut self, p: &mut P) {
        loop {
            let c = p.peek();
            if c == b'#' { p.i += 1; p.word(); continue; }
            if c == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; if p.eat(b'=') { p.ws(); p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; } continue; }
            if !c.is_ascii_alphabetic() { return; }
            let w = p.word_at();
            if is_type_word(w) || w.starts_with(b"f0x") || matches!(w, b"null" | b"undef" | b"poison" | b"true" | b"false" | b"zeroinitializer" | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"asm" | b"c" | b"splat" | b"xor" | b"add" | b"sub") { return; }
            if w == b"byval" { p.fail("byval") }
            p.word();
            if w == b"align" { if p.peek().is_ascii_digit() { p.int(); continue; } }
            if p.i < p.end && p.s[p.i] == b'(' { p.skip_balanced(); }
        }
    }
    fn ptarget(&mut self, p: &mut P, blocks: &mut Blocks) -> Target {
        if !p.eat_word(b"label") { p.fail("label") }
        p.expect(b'%');
        let n = p.name();
        Target { block: blocks.get(n), copies: vec![] }
    }

    /// Parses a function body (once).
    pub fn load(&mut self, fi: u32) {
        if self.funcs[fi as usize].parsed { return; }
        self.funcs[fi as usize].parsed = true;
        if !self.funcs[fi as usize].defined { return; }
        let text = std::mem::take(&mut self.text);
        let (ha, hb) = self.funcs[fi as usize].header;
        let (a, b) = self.funcs[fi as usize].body;
        let mut regs = Regs::default();
        let mut bl = Blocks::default();
        // header
        let at = (ha..hb).find(|&k| text[k] == b'@').unwrap();
        let mut p = P { s: &text, i: at + 1, end: hb };
        p.name();
        p.expect(b'(');
        let mut params = vec![];
                let mut unnamed = 0;
        if !p.eat(b')') {
            loop {
                let _t = self.ptype(&mut p);
                self.skip_attrs(&mut p);
                if p.eat(b'%') { let n = p.name(); if n.iter().all(|c| c.is_ascii_digit()) { unnamed += 1; } params.push(regs.get(n)); } else { params.push(regs.get(format!("{unnamed}").into_bytes())); unnamed += 1; }
                if p.eat(b')') { break; }
                p.expect(b',');
            }
        }
        let mut cur: Vec<I> = vec![];
        let mut cur_id: Option<u32> = None;
        let mut phis: HashMap<u32, Vec<(u32, Vec<(u32, Opd)>)>> = HashMap::new();
        let mut out: Vec<Option<Vec<I>>> = vec![];
        let mut i = a;
        // the entry block may be unlabelled
        macro_rules! flush { () => { if let Some(id) = cur_id { while out.len() <= id as usize { out.push(None); } out[id as usize] = Some(std::mem::take(&mut cur)); } } }
        while i < b {
            let mut j = i;
            while j < b && text[j] != b'\n' { j += 1; }
            let line = &text[i..j];
            if line.is_empty() { i = j + 1; continue; }
            if line[0] != b' ' && line[0] != b'\t' {
                if line[0] == b';' { i = j + 1; continue; }
                let mut p = P { s: &text, i, end: j };
                let n = p.name();
                flush!();
                cur_id = Some(bl.get(n));
                i = j + 1;
                continue;
            }
            if cur_id.is_none() {
                // unlabelled entry: takes the next implicit number
                cur_id = Some(bl.get(format!("{unnamed}").into_bytes()));
            }
            // multi-line switch / invoke
            {
                let t = { let mut p = P { s: &text, i, end: j }; if p.peek() == b'%' { p.i += 1; p.name(); p.expect(b'='); } p.word() };
                if t == b"switch" { while text[j - 1] != b']' && !text[i..j].windows(4).any(|w| w == b"\n  ]") { j += 1; while text[j] != b'\n' { j += 1; } } }
                if t == b"invoke" || t == b"landingpad" {
                    if t == b"invoke" { j += 1; while text[j] != b'\n' { j += 1; } }
                    else { while text[j + 1..].starts_with(b"          ") { j += 1; while text[j] != b'\n' { j += 1; } } }
                }
            }
            let mut p = P { s: &text, i, end: j };
            self.pinst(&mut p, &mut regs, &mut bl, cur_id.unwrap(), &mut cur, &mut phis);
            i = j + 1;
        }
        flush!();
        let mut blocks: Vec<Vec<I>> = out.into_iter().map(|x| x.unwrap_or_default()).collect();
        while blocks.len() < bl.n as usize { blocks.push(vec![]); }
        // attach phi copies to the edges
        for (from, b) in blocks.iter_mut().enumerate() {
            if let Some(t) = b.last_mut() {
                let mut fix = |t: &mut Target| {
                    if let Some(ps) = phis.get(&t.block) {
                        for (d, inc) in ps {
                            match inc.iter().find(|x| x.0 == from as u32) { Some((_, o)) => t.copies.push((*d, *o)), None => panic!("phi without incoming edge") }
                        }
                    }
                };
                match t {
                    I::Br(t) => fix(t),
                    I::CondBr(_, a, b) => { fix(a); fix(b) }
                    I::Switch { def, cases, .. } => { fix(def); for c in cases { fix(&mut c.1) } }
                    _ => (),
                }
            }
        }
        let f = &mut self.funcs[fi as usize];
        f.blocks = blocks;
        f.nregs = regs.n;
        f.params = params;
        self.text = text;
        // the entry block must be block 0
    }

    fn pinst(&mut self, p: &mut P, regs: &mut Regs, bl: &mut Blocks, cur: u32, out: &mut Vec<I>, phis: &mut HashMap<u32, Vec<(u32, Vec<(u32, Opd)>)>>) {
        let mut d = None;
        if p.peek() == b'%' { p.i += 1; let n = p.name(); d = Some(regs.get(n)); p.expect(b'='); }
        let mut w = p.word();
        if matches!(w, b"tail" | b"musttail" | b"notail") { w = p.word(); }
        let bin = |w: &[u8]| Some(match w {
            b"add" => Bin::Add, b"sub" => Bin::Sub, b"mul" => Bin::Mul, b"udiv" => Bin::UDiv, b"sdiv" => Bin::SDiv, b"urem" => Bin::URem, b"srem" => Bin::SRem,
            b"and" => Bin::And, b"or" => Bin::Or, b"xor" => Bin::Xor, b"shl" => Bin::Shl, b"lshr" => Bin::LShr, b"ashr" => Bin::AShr,
            b"fadd" => Bin::FAdd, b"fsub" => Bin::FSub, b"fmul" => Bin::FMul, b"fdiv" => Bin::FDiv, b"frem" => Bin::FRem, _ => return None,
        });
        if let Some(op) = bin(w) {
            self.skip_attrs(p);
            let ty = self.ptype(p);
            let a = self.pval(p, ty, regs);
            p.expect(b',');
            let b = self.pval(p, ty, regs);
            out.push(I::Bin { op, ty, d: d.unwrap(), a, b });
            return;
        }
        let cast = |w: &[u8]| Some(match w {
            b"trunc" => Cast::Trunc, b"zext" => Cast::ZExt, b"sext" => Cast::SExt, b"fptrunc" => Cast::FpTrunc, b"fpext" => Cast::FpExt,
            b"fptosi" => Cast::FpToSi, b"fptoui" => Cast::FpToUi, b"sitofp" => Cast::SiToFp, b"uitofp" => Cast::UiToFp,
            b"bitcast" | b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" => Cast::Bits, _ => return None,
        });
        if let Some(mut k) = cast(w) {
            self.skip_attrs(p);
            let from = self.ptype(p);
            let a = self.pval(p, from, regs);
            if !p.eat_word(b"to") { p.fail("to") }
            let to = self.ptype(p);
            if k == Cast::Bits && matches!(self.tys[from as usize], Ty::Int(_) | Ty::Ptr) && matches!(self.tys[to as usize], Ty::Int(_) | Ty::Ptr) && self.width(from) != self.width(to) {
                k = if self.width(from) > self.width(to) { Cast::Trunc } else { Cast::ZExt };
            }
            out.push(I::Cast { k, from, to, d: d.unwrap(), a });
            return;
        }
        match w {
            b"fneg" => { self.skip_attrs(p); let ty = self.ptype(p); let a = self.pval(p, ty, regs); out.push(I::FNeg { ty, d: d.unwrap(), a }); }
            b"freeze" => { let ty = self.ptype(p); let a = self.pval(p, ty, regs); out.push(I::Copy { d: d.unwrap(), a }); }
            b"icmp" => {
                p.eat_word(b"samesign");
                let pr = match p.word() { b"eq" => IPred::Eq, b"ne" => IPred::Ne, b"ult" => IPred::Ult, b"ule" => IPred::Ule, b"ugt" => IPred::Ugt, b"uge" => IPred::Uge, b"slt" => IPred::Slt, b"sle" => IPred::Sle, b"sgt" => IPred::Sgt, b"sge" => IPred::Sge, _ => p.fail("icmp") };
                let ty = self.ptype(p);
                let a = self.pval(p, ty, regs);
                p.expect(b',');
                let b = self.pval(p, ty, regs);
                out.push(I::ICmp { p: pr, ty, d: d.unwrap(), a, b });
            }
            b"fcmp" => {
                let pr = loop {
                    break match p.word() {
                        b"false" => FPred::False, b"oeq" => FPred::Oeq, b"ogt" => FPred::Ogt, b"oge" => FPred::Oge, b"olt" => FPred::Olt, b"ole" => FPred::Ole, b"one" => FPred::One, b"ord" => FPred::Ord,
                        b"ueq" => FPred::Ueq, b"ugt" => FPred::Ugt, b"uge" => FPred::Uge, b"ult" => FPred::Ult, b"ule" => FPred::Ule, b"une" => FPred::Une, b"uno" => FPred::Uno, b"true" => FPred::True,
                        b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"reassoc" | b"afn" | b"fast" => continue,
                        _ => p.fail("fcmp"),
                    };
                };
                let ty = self.ptype(p);
                let a = self.pval(p, ty, regs);
                p.expect(b',');
                let b = self.pval(p, ty, regs);
                out.push(I::FCmp { p: pr, ty, d: d.unwrap(), a, b });
            }
            b"load" => {
                self.skip_attrs(p);
                let ty = self.ptype(p);
                p.expect(b',');
                let pt = self.ptype(p);
                let a = self.pval(p, pt, regs);
                out.push(I::Load { ty, d: d.unwrap(), p: a });
            }
            b"store" => {
                self.skip_attrs(p);
                let ty = self.ptype(p);
                let v = self.pval(p, ty, regs);
                p.expect(b',');
                let pt = self.ptype(p);
                let a = self.pval(p, pt, regs);
                out.push(I::Store { ty, v, p: a });
            }
            b"getelementptr" => {
                self.skip_attrs(p);
                let et = self.ptype(p);
                p.expect(b',');
                let bt = self.ptype(p);
                let base = self.pval(p, bt, regs);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let it = self.ptype(p);
                    let o = self.pval(p, it, regs);
                    let iw = self.width(it);
                    let (scale, next) = if first { (self.size(et) as i64, et) } else {
                        match self.tys[cur as usize] {
                            Ty::Struct(..) => { let k = match o { Opd::C(v) => v as usize, _ => p.fail("struct gep") }; let (so, n) = self.offset(cur, k); off += so as i64; cur = n; continue; }
                            _ => { let (s, n) = self.offset(cur, 1); (s as i64, n) }
                        }
                    };
                    first = false;
                    cur = next;
                    match o {
                        Opd::C(v) => off = off.wrapping_add((crate::expr::sext(v as u128, iw) as i64).wrapping_mul(scale)),
                        _ => idx.push((o, iw, scale)),
                    }
                }
                out.push(I::Gep { d: d.unwrap(), base, off, idx });
            }
            b"alloca" => {
                p.eat_word(b"inalloca");
                let ty = self.ptype(p);
                let (mut size, mut align) = self.layout[ty as usize];
                while p.eat(b',') {
                    if p.eat_word(b"align") { align = p.int() as u64; continue; }
                    if p.peek() == b'!' { break; }
                    let it = self.ptype(p);
                    match self.pval(p, it, regs) { Opd::C(n) => size *= n, _ => p.fail("dynamic alloca") }
                }
                out.push(I::Alloca { d: d.unwrap(), size, align });
            }
            b"select" => {
                self.skip_attrs(p);
                let ct = self.ptype(p);
                let cv = matches!(self.tys[ct as usize], Ty::Vec(..));
                let c = self.pval(p, ct, regs);
                p.expect(b',');
                let ty = self.ptype(p);
                let a = self.pval(p, ty, regs);
                p.expect(b',');
                let t2 = self.ptype(p);
                let b = self.pval(p, t2, regs);
                out.push(I::Select { ty, d: d.unwrap(), c, cv, a, b });
            }
            b"phi" => {
                self.skip_attrs(p);
                let ty = self.ptype(p);
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let v = self.pval(p, ty, regs);
                    p.expect(b',');
                    p.expect(b'%');
                    let n = p.name();
                    inc.push((bl.get(n), v));
                    p.expect(b']');
                    if !p.eat(b',') || p.peek() == b'!' { break; }
                }
                phis.entry(cur).or_default().push((d.unwrap(), inc));
            }
            b"extractvalue" => {
                let ty = self.ptype(p);
                let a = self.pval(p, ty, regs);
                let mut path = vec![];
                while p.eat(b',') { if p.peek() == b'!' { break; } path.push(p.int() as u32); }
                out.push(I::ExtractValue { d: d.unwrap(), a, path });
            }
            b"insertvalue" => {
                let ty = self.ptype(p);
                let a = self.pval(p, ty, regs);
                p.expect(b',');
                let vt = self.ptype(p);
                let v = self.pval(p, vt, regs);
                let mut path = vec![];
                while p.eat(b',') { if p.peek() == b'!' { break; } path.push(p.int() as u32); }
                out.push(I::InsertValue { d: d.unwrap(), ty, a, v, path });
            }
            b"extractelement" => {
                let ty = self.ptype(p);
                let a = self.pval(p, ty, regs);
                p.expect(b',');
                let it = self.ptype(p);
                let i = self.pval(p, it, regs);
                out.push(I::ExtractElem { d: d.unwrap(), a, i });
            }
            b"insertelement" => {
                let ty = self.ptype(p);
                let a = self.pval(p, ty, regs);
                p.expect(b',');
                let vt = self.ptype(p);
                let v = self.pval(p, vt, regs);
                p.expect(b',');
                let it = self.ptype(p);
                let i = self.pval(p, it, regs);
                out.push(I::InsertElem { d: d.unwrap(), ty, a, v, i });
            }
            b"shufflevector" => {
                let ty = self.ptype(p);
                let a = self.pval(p, ty, regs);
                p.expect(b',');
                let t2 = self.ptype(p);
                let b = self.pval(p, t2, regs);
                p.expect(b',');
                let mt = self.ptype(p);
                let n = match self.tys[mt as usize] { Ty::Vec(n, _) => n, _ => p.fail("mask") };
                let k = self.pconst(p, mt);
                let mask = match k {
                    K::Z => vec![0; n as usize],
                    K::A(v) => v.iter().map(|k| match k { K::I(v) => *v as i64, _ => 0 }).collect(),
                    _ => p.fail("mask"),
                };
                out.push(I::Shuffle { d: d.unwrap(), ty, a, b, mask });
            }
            b"call" | b"invoke" => {
                self.skip_attrs(p);
                let mut ret = self.ptype(p);
                if p.peek() == b'(' {
                    // explicit function type
                    p.skip_balanced();
                    let _ = &mut ret;
                }
                self.skip_attrs(p);
                if p.word_at() == b"asm" {
                    let a = p.i;
                    let txt = String::from_utf8_lossy(&p.s[a..p.end]).into_owned();
                    if d.is_some() && txt.contains("\"/*") && txt.contains(", \"=&r,0,") {
                        // an optimization barrier that hands its operand through
                        p.i = a + txt.find("\"(").unwrap() + 2;
                        let t = self.ptype(p);
                        self.skip_attrs(p);
                        let v = self.pval(p, t, regs);
                        out.push(I::Copy { d: d.unwrap(), a: v });
                        return;
                    }
                    if txt.contains("asm sideeffect \"/*") || txt.contains("asm sideeffect inteldialect \"/*") || txt.contains("asm sideeffect \"\"") || txt.contains("asm \"\"") { if let Some(d) = d { out.push(I::Unsupported(format!("asm result r{d}"))); } return; }
                    if txt.starts_with("asm inteldialect \"sqrtsd ") || txt.starts_with("asm inteldialect \"sqrtss ") {
                        p.i = a + txt.find('(').unwrap() + 1;
                        let t = self.ptype(p);
                        let v = self.pval(p, t, regs);
                        let f = self.fmap[if txt.contains("sqrtsd") { &b"llvm.sqrt.f64"[..] } else { &b"llvm.sqrt.f32"[..] }];
                        out.push(I::Call { d, ret, f: Callee::Fn(f), args: vec![(t, v)] });
                        return;
                    }
                    out.push(I::Unsupported(txt));
                    return;
                }
                let f = match p.peek() {
                    b'@' => {
                        p.i += 1;
                        let n = p.name();
                        match self.fmap.get(&n) { Some(&f) => Callee::Fn(f), None => p.fail("callee") }
                    }
                    _ => { let pt = self.ty(Ty::Ptr); Callee::Reg(self.pval(p, pt, regs)) }
                };
                p.expect(b'(');
                let mut args = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = self.ptype(p);
                        self.skip_attrs(p);
                        let v = self.pval(p, t, regs);
                        args.push((t, v));
                        if p.eat(b')') { break; }
                        p.expect(b',');
                    }
                }
                out.push(I::Call { d, ret, f, args });
                if w == b"invoke" {
                    while p.word_at() != b"to" { if p.i >= p.end { p.fail("invoke") } p.i += 1; }
                    p.word();
                    let t = self.ptarget(p, bl);
                    out.push(I::Br(t));
                }
            }
            b"br" => {
                if p.word_at() == b"label" { let t = self.ptarget(p, bl); out.push(I::Br(t)); return; }
                let t = self.ptype(p);
                let c = self.pval(p, t, regs);
                p.expect(b',');
                let a = self.ptarget(p, bl);
                p.expect(b',');
                let b = self.ptarget(p, bl);
                out.push(I::CondBr(c, a, b));
            }
            b"switch" => {
                let ty = self.ptype(p);
                let v = self.pval(p, ty, regs);
                p.expect(b',');
                let def = self.ptarget(p, bl);
                p.expect(b'[');
                let mut cases = vec![];
                while !p.eat(b']') {
                    let t = self.ptype(p);
                    let k = self.pconst(p, t);
                    p.expect(b',');
                    let tg = self.ptarget(p, bl);
                    cases.push((self.kint(&k), tg));
                }
                out.push(I::Switch { ty, v, def, cases });
            }
            b"ret" => {
                let t = self.ptype(p);
                if self.tys[t as usize] == Ty::Void { out.push(I::Ret(None)); } else { let v = self.pval(p, t, regs); out.push(I::Ret(Some(v))); }
            }
            b"unreachable" => out.push(I::Unreachable),
            b"fence" => (),
            b"atomicrmw" => {
                self.skip_rmw(p);
                let op = String::from_utf8_lossy(p.word()).into_owned();
                let pt = self.ptype(p);
                let a = self.pval(p, pt, regs);
                p.expect(b',');
                let ty = self.ptype(p);
                let v = self.pval(p, ty, regs);
                out.push(I::Rmw { op, ty, d: d.unwrap(), p: a, v });
            }
            b"cmpxchg" => {
                p.eat_word(b"weak");
                p.eat_word(b"volatile");
                let pt = self.ptype(p);
                let a = self.pval(p, pt, regs);
                p.expect(b',');
                let ty = self.ptype(p);
                let c = self.pval(p, ty, regs);
                p.expect(b',');
                let t2 = self.ptype(p);
                let n = self.pval(p, t2, regs);
                out.push(I::CmpXchg { ty, d: d.unwrap(), p: a, c, n });
            }
            b"landingpad" | b"resume" => out.push(I::Unsupported("unwinding".into())),
            _ => out.push(I::Unsupported(String::from_utf8_lossy(&p.s[p.i - w.len()..p.end]).into_owned())),
        }
    }
    fn skip_rmw(&mut self, p: &mut P) { p.eat_word(b"volatile"); }
}

#[derive(Default)]
struct Regs { m: HashMap<Vec<u8>, u32>, n: u32 }
impl Regs { fn get(&mut self, n: Vec<u8>) -> u32 { if let Some(&x) = self.m.get(&n) { return x; } let k = self.n; self.n += 1; self.m.insert(n, k); k } }
#[derive(Default)]
struct Blocks { m: HashMap<Vec<u8>, u32>, n: u32 }
impl Blocks { fn get(&mut self, n: Vec<u8>) -> u32 { if let Some(&x) = self.m.get(&n) { return x; } let k = self.n; self.n += 1; self.m.insert(n, k); k } }
