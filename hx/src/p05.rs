//! P05 building, taking apart and searching lists
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::vec; use alloc::vec::Vec;

pub const SHAPES: usize = 12;
fn shape(i: usize) -> V {
    let m = || n(any_int());
    match i {
        0 => l(vec![]),
        1 => l(vec![m()]),
        2 => l(vec![m(), m()]),
        3 => l(vec![m(), m(), m()]),
        4 => l(vec![l(vec![m(), m()]), l(vec![m(), m()])]),
        5 => l(vec![l(vec![m()]), l(vec![m(), m(), m()]), m()]),
        6 => l(vec![m(), l(vec![m(), m()])]),
        7 => l(vec![l(vec![l(vec![m()]), m()]), l(vec![])]),
        8 => l(vec![l(vec![]), l(vec![])]),
        9 => l(vec![t("ab"), V::B(true), m()]),
        10 => l(vec![l(vec![l(vec![m(), m(), m()]), l(vec![m()])]), l(vec![l(vec![m(), m()])])]),
        _ => m(),
    }
}
fn items(v: &V) -> Option<&Vec<V>> { match v { V::L(x) => Some(x), _ => None } }
fn flat(v: &V, o: &mut Vec<V>) { match v { V::L(x) => for v in x { flat(v, o) }, _ => o.push(v.clone()) } }
fn dims(v: &V, d: usize, o: &mut Vec<usize>) { if let V::L(x) = v { if o.len() == d { o.push(0) } o[d] = o[d].max(x.len()); for v in x { dims(v, d + 1, o) } } }
fn columns(x: &[V]) -> V {
    let w = x.iter().map(|r| match r { V::L(r) => r.len(), _ => 1 }).max().unwrap_or(0);
    l((0..w).map(|c| l(x.iter().map(|r| match r { V::L(r) => r.get(c).cloned().unwrap_or(t("")), _ => r.clone() }).collect())).collect())
}
fn op(k: usize) -> Expr {
    let value = bvar("a");
    e(match k {
        0 => X::ListLen { value }, 1 => X::ListIsEmpty { value }, 2 => X::ListRev { value }, 3 => X::ListCdr { value }, 4 => X::ListFlatten { value },
        5 => X::ListDims { value }, 6 => X::ListRank { value }, 7 => X::ListColumns { value }, 8 => X::CopyList { list: value }, _ => X::ListCons { item: be(X::Value(AV::Number(5.0))), list: value },
    })
}
const OPS: usize = 10;
/// what each operation gives; None: an error
fn want(k: usize, v: &V) -> Option<V> {
    let x = items(v);
    match k {
        4 => { let mut o = vec![]; flat(v, &mut o); return Some(l(o)) }
        5 | 6 => { let mut o = vec![]; dims(v, 0, &mut o); return Some(if k == 6 { n(o.len() as f64) } else { l(o.iter().map(|x| n(*x as f64)).collect()) }) }
        _ => (),
    }
    let x = x?;
    Some(match k {
        0 => n(x.len() as f64),
        1 => V::B(x.is_empty()),
        2 => l(x.iter().rev().cloned().collect()),
        3 => if x.is_empty() { return None } else { l(x[1..].to_vec()) },
        7 => columns(x),
        8 => v.clone(),
        _ => { let mut o = vec![n(5.0)]; o.extend(x.iter().cloned()); l(o) }
    })
}
/// every operation on every shape gives exactly the list it should, and the operand is left as it was
pub fn shapes() {
    let k = choice(OPS);
    let v = shape(choice(SHAPES));
    gc(|mc| {
        let a = val(mc, &v);
        let r = eval(mc, &["a"], vec![("a", a.clone())], op(k), &Sys::new());
        match (r, want(k, &v)) { (End::Ok(r), Some(w)) => { cover!(); check!(veq(&snap(&r), &w)) } (End::Err(..), None) => { cover!(); } _ => check!(false) }
        check!(veq(&snap(&a), &v));
    });
}
/// every list of lists of up to two elements and up to three levels
pub fn trees() {
    let k = [2usize, 4, 5, 6, 7, 0][choice(6)];
    fn tree(d: usize, c: &mut f64) -> V {
        let k = if d == 0 { 0 } else { choice(4) };
        if k == 0 { *c += 1.0; return n(*c) }
        l((1..k).map(|_| tree(d - 1, c)).collect())
    }
    let v = tree(3, &mut 0.0);
    let w = want(k, &v);
    cover!();
    match (ev(op(k), &[v]), w) { (Some(r), Some(w)) => check!(veq(&r, &w)), (None, None) => (), _ => check!(false) }
}
/// results are new lists: adding to one never changes an operand; what they contain are the operand's own elements
pub fn fresh() {
    let k = [2usize, 3, 4, 7, 8, 9][choice(6)];
    let v = shape([2, 4, 5, 6][choice(4)]);
    gc(|mc| {
        let a = val(mc, &v);
        let prog = vec![locals(&["r"]), assign("r", op(k)), s(K::ListInsertLast { list: bvar("r"), value: bx(num(1.0)) }), s(K::ListAssign { list: bvar("r"), index: bx(num(1.0)), value: bx(num(2.0)) }), ret(num(0.0))];
        match start(mc, &main_role(&["a"], prog), &Sys::new(), Settings::default(), vec![("a", a.clone())]).to_end(mc, 200) { End::Ok(_) => { cover!(); check!(veq(&snap(&a), &v)) } _ => check!(false) }
        // shallow: nested lists are shared with the operand
        let first = match &a { Value::List(x) => x.borrow().iter().next_back().cloned().unwrap(), _ => panic!() };
        if matches!(k, 2 | 3 | 8 | 9) && matches!(first, Value::List(_)) {
            let at = |x: Expr, i: f64| e(X::ListGet { list: bx(x), index: bx(num(i)) });
            let last = |x: Expr| e(X::ListGetLast { list: bx(x) });
            let there = if k == 2 { at(op(k), 1.0) } else { last(op(k)) };
            match eval(mc, &["a"], vec![("a", a.clone())], e(X::Identical { left: bx(there), right: bx(last(var("a"))) }), &Sys::new()) { End::Ok(Value::Bool(b)) => { cover!(); check!(b) } _ => check!(false) }
        }
    });
}
/// appending any number of lists, given one by one or as one list of lists
pub fn append() {
    let k = choice(4);
    let dynamic = choice(2) == 1;
    let vs: Vec<V> = (0..k).map(|_| shape([0, 1, 2, 6][choice(4)])).collect();
    let lists = if dynamic { bvar("a") } else { bx(list((0..k).map(|i| var(NAMES[i])).collect())) };
    let got = ev(e(X::ListCat { lists }), &if dynamic { vec![l(vs.clone())] } else { vs.clone() });
    let mut w = vec![]; for v in &vs { w.extend(items(v).unwrap().iter().cloned()); }
    cover!();
    match got { Some(x) => check!(veq(&x, &l(w))), None => check!(false) }
}
pub fn append_not_lists() {
    let bad = [n(1.0), t("ab"), V::B(false)][choice(3)].clone();
    cover!();
    check!(ev(e(X::ListCat { lists: bx(list(vec![var("a"), var("b")])) }), &[l(vec![]), bad]).is_none());
}
/// the index of the first equal element, 0 if there is none; contains says whether there is one
pub fn find() {
    let k = choice(5);
    let vs: Vec<V> = (0..k).map(|_| n(any_int())).collect();
    let v = n(any_int());
    let a = [l(vs.clone()), v.clone()];
    let mut w = 0;
    for i in (0..k).rev() { if veq(&vs[i], &v) { w = i + 1; } }
    match ev(e(X::ListFind { list: bvar("a"), value: bvar("b") }), &a) { Some(V::N(x)) => { cover!(); check!(x == w as f64) } _ => check!(false) }
    match ev(e(X::ListContains { list: bvar("a"), value: bvar("b") }), &a) { Some(V::B(x)) => { cover!(); check!(x == (w > 0)) } _ => check!(false) }
}
/// finding compares like the equality block
pub fn find_kinds() {
    let a = l(vec![t("Abc"), V::B(true), t("7"), l(vec![n(1.0), t("x")]), n(3.0), t("abc")]);
    let (v, w) = [(t("aBC"), 1.0), (V::B(true), 2.0), (n(7.0), 3.0), (l(vec![t("1"), t("X")]), 4.0), (t("3"), 5.0), (V::B(false), 0.0), (t("true"), 0.0), (l(vec![]), 0.0)][choice(8)].clone();
    let p = [a, v];
    cover!();
    check!(ev(e(X::ListFind { list: bvar("a"), value: bvar("b") }), &p) == Some(n(w)));
    check!(ev(e(X::ListContains { list: bvar("a"), value: bvar("b") }), &p) == Some(V::B(w > 0.0)));
    for i in 1..=6 { let eq = ev(e(X::Eq { left: be(X::ListGet { list: bvar("a"), index: bx(num(i as f64)) }), right: bvar("b") }), &p); if (i as f64) < w { check!(eq == Some(V::B(false))) } if i as f64 == w { check!(eq == Some(V::B(true))) } }
}
/// reshaping fills the given dimensions in order, cycling through the flattened source
pub fn reshape() {
    let src = shape([0, 1, 2, 3, 5, 8, 10, 11][choice(8)]);
    let ds: &[usize] = [&[][..], &[0], &[1], &[4], &[2, 3], &[3, 0], &[1, 2, 2]][choice(7)];
    let dynamic = choice(2) == 1;
    let got = if dynamic { ev(e(X::ListReshape { value: bvar("a"), dims: bvar("b") }), &[src.clone(), l(ds.iter().map(|x| n(*x as f64)).collect())]) }
        else { ev(e(X::ListReshape { value: bvar("a"), dims: bx(list(ds.iter().map(|x| num(*x as f64)).collect())) }), &[src.clone()]) };
    let mut f = vec![]; flat(&src, &mut f);
    fn build(f: &[V], i: &mut usize, d: &[usize]) -> V { if d.is_empty() { *i += 1; f[(*i - 1) % f.len()].clone() } else { l((0..d[0]).map(|_| build(f, i, &d[1..])).collect()) } }
    match got { Some(x) => { cover!(); check!(!f.is_empty()); check!(veq(&x, &build(&f, &mut 0, ds))) } None => { cover!(); check!(f.is_empty()) } }
}
/// dimensions are non-negative integers
pub fn reshape_sizes() {
    let d = any_num();
    assume((d < 3.0) | (d > 18446744073709551616.0));
    let got = ev(e(X::ListReshape { value: bvar("a"), dims: bvar("b") }), &[ln(&[1.0, 2.0]), l(vec![n(d)])]);
    let ok = (d == 0.0) | (d == 1.0) | (d == 2.0);
    match got { Some(V::L(x)) => { cover!(); check!(ok); check!(x.len() as f64 == d); } Some(_) => check!(false), None => { cover!(); check!(!ok); } }
}
pub fn combinations() {
    let k = choice(4);
    let dynamic = choice(2) == 1;
    let vs: Vec<V> = (0..k).map(|_| shape(choice(3))).collect();
    let sources = if dynamic { bvar("a") } else { bx(list((0..k).map(|i| var(NAMES[i])).collect())) };
    let got = ev(e(X::ListCombinations { sources }), &if dynamic { vec![l(vs.clone())] } else { vs.clone() });
    let mut w: Vec<Vec<V>> = if k == 0 { vec![] } else { vec![vec![]] };
    for v in &vs { let mut o = vec![]; for p in &w { for x in items(v).unwrap() { let mut p = p.clone(); p.push(x.clone()); o.push(p); } } w = o; }
    cover!();
    match got { Some(x) => check!(veq(&x, &l(w.into_iter().map(l).collect()))), None => check!(false) }
}
/// counting from one number towards another in steps of one, not past it
pub fn range() {
    let d = choice(8) as f64 - 4.0;
    let half = choice(2) == 1;
    let a = any_int();
    let b = a + d + if half { 0.5 } else { 0.0 };
    let got = ev(e(X::Range { start: bvar("a"), stop: bvar("b") }), &[n(a), n(b)]);
    let mut w = vec![];
    let delta = d + if half { 0.5 } else { 0.0 };
    if delta >= 0.0 { let mut k = 0.0; while k <= delta { w.push(n(a + k)); k += 1.0; } } else { let mut k = 0.0; while k >= delta { w.push(n(a + k)); k -= 1.0; } }
    cover!();
    match got { Some(x) => check!(veq(&x, &l(w))), None => check!(false) }
}
pub fn range_lists() {
    let a = any_int();
    let got = ev(e(X::Range { start: bvar("a"), stop: bvar("b") }), &[n(a), l(vec![n(a), n(a + 1.0), l(vec![n(a - 1.0)])])]);
    cover!();
    match got { Some(x) => check!(veq(&x, &l(vec![ln(&[a]), ln(&[a, a + 1.0]), l(vec![ln(&[a, a - 1.0])])]))), None => check!(false) }
}
/// lists that contain themselves: an error, not an endless loop; sharing without a cycle is no cycle
pub fn cyclic() {
    let k = [4usize, 5, 6, 10][choice(4)];
    let cyc = choice(3);
    let x = any_int();
    let (a, b) = (|| bvar("a"), || bvar("b"));
    let mut prog = vec![locals(&["b"]), assign("b", list(vec![var("a"), num(1.0)]))];
    match cyc { 0 => prog.push(s(K::ListInsertLast { list: b(), value: b() })), 1 => prog.push(s(K::ListInsertLast { list: a(), value: b() })), _ => prog.push(s(K::ListInsertLast { list: b(), value: a() })) }
    prog.push(assign("a", var("b")));
    prog.push(ret(if k == 10 { e(X::ListReshape { value: a(), dims: bx(list(vec![num(3.0)])) }) } else { op(k) }));
    gc(|mc| match start(mc, &main_role(&["a"], prog), &Sys::new(), Settings::default(), vec![("a", val(mc, &ln(&[x])))]).to_end(mc, 200) {
        End::Err(..) => { cover!(); check!(cyc != 2) }
        End::Ok(r) => { cover!(); check!(cyc == 2); check!(veq(&snap(&r), &match k { 4 | 10 => ln(&[x, 1.0, x]), 5 => ln(&[3.0, 1.0]), _ => n(2.0) })) }
        _ => check!(false),
    });
}
/// the operations that take lists take nothing else
pub fn only_lists() {
    let v = [n(1.0), t("abc"), V::B(true)][choice(3)].clone();
    let k = [0usize, 1, 2, 3, 7, 8, 9][choice(7)];
    cover!();
    check!(ev(op(k), &[v.clone()]).is_none());
    check!(ev(e(X::ListFind { list: bvar("a"), value: bvar("b") }), &[v.clone(), n(1.0)]).is_none());
    check!(ev(e(X::ListContains { list: bvar("a"), value: bvar("b") }), &[v.clone(), n(1.0)]).is_none());
    check!(ev(e(X::ListCombinations { sources: bx(list(vec![var("a")])) }), &[v.clone()]).is_none());
}
harnesses! { shapes, trees, fresh, append, append_not_lists, find, find_kinds, reshape, reshape_sizes, combinations, range, range_lists, cyclic, only_lists }
