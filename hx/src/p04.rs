//! P04 reading and changing lists by position
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::vec; use alloc::vec::Vec;

fn ints(k: usize) -> Vec<V> { (0..k).map(|_| n(any_int())).collect() }
/// an index: every kind of shape; scalars over all doubles
fn index(kind: usize) -> V {
    let i = || n(any_int());
    match kind {
        0 => n(any_num()),
        1 => l(vec![]),
        2 => l(vec![i()]),
        3 => l(vec![i(), i()]),
        4 => l(vec![l(vec![i()]), i()]),
        5 => t("2"),
        6 => t("x"),
        7 => V::B(true),
        8 => n(1.5),
        9 => l(vec![n(1.0), t("2")]),
        10 => l(vec![i(), i(), i()]),
        _ => l(vec![n(1.0), n(0.5)]),
    }
}
const KINDS: usize = 12;
/// the positions an index names, zero based; None: not acceptable for `len` positions
fn position(v: &V, len: usize) -> Option<usize> {
    let x = match v { V::N(x) => *x, V::T(s) => match s.as_str() { "2" => 2.0, _ => return None }, _ => return None };
    for k in 0..len { if x == (k + 1) as f64 { return Some(k); } }
    None
}
fn flat(v: &V, out: &mut Vec<V>) { match v { V::L(x) => for v in x { flat(v, out) }, _ => out.push(v.clone()) } }
fn positions(v: &V, len: usize) -> Option<Vec<bool>> {
    let mut f = vec![]; flat(v, &mut f);
    let mut r = vec![false; len];
    for v in &f { r[position(v, len)?] = true; }
    Some(r)
}
fn get_at(list: &[V], v: &V) -> Option<V> {
    match v { V::L(x) => { let mut o = vec![]; for v in x { o.push(get_at(list, v)?); } Some(l(o)) } _ => position(v, list.len()).map(|k| list[k].clone()) }
}
pub fn get() {
    let kind = choice(KINDS);
    let len = choice(4);
    let a = ints(len);
    let i = index(kind);
    let want = get_at(&a, &i);
    let got = ev(e(X::ListGet { list: bvar("a"), index: bvar("b") }), &[l(a), i]);
    match (got, want) { (Some(x), Some(y)) => { cover!(); check!(veq(&x, &y)) } (None, None) => { cover!(); } _ => check!(false) }
}
/// runs one statement on a list that is also reachable under another name; gives whether it succeeded and the list afterwards
fn on_list(list: &V, i: &V, stmt: Stmt, sys: &alloc::rc::Rc<Sys>) -> (bool, V) {
    let mut out = None;
    gc(|mc| {
        let a = val(mc, list);
        let r = start(mc, &main_role(&["a", "b", "c"], vec![stmt, ret(num(0.0))]), sys, Settings::default(), vec![("a", a.clone()), ("b", val(mc, i)), ("c", nv(77.0))]).to_end(mc, 200);
        out = Some((match r { End::Ok(_) => true, End::Err(..) => false, _ => panic!("did not finish") }, snap(&a)));
    });
    out.unwrap()
}
/// insert, replace and remove at an index or set of indices: all named positions, or an error that changes nothing
pub fn change() {
    let op = choice(3);
    let kind = choice(KINDS);
    let len = choice(4);
    let a = ints(len);
    let i = index(kind);
    let c = || bvar("c");
    let (list, index) = (bvar("a"), bvar("b"));
    let stmt = s(match op { 0 => K::ListInsert { list, index, value: c() }, 1 => K::ListAssign { list, index, value: c() }, _ => K::ListRemove { list, index } });
    let n_pos = if op == 0 { len + 1 } else { len };
    let want = positions(&i, n_pos);
    let (ok, after) = on_list(&l(a.clone()), &i, stmt, &Sys::new());
    match want {
        None => { cover!(); check!(!ok); check!(veq(&after, &l(a))); }
        Some(p) => {
            cover!();
            let mut w = vec![];
            for k in 0..n_pos {
                match op {
                    0 => { if p[k] { w.push(n(77.0)); } if k < len { w.push(a[k].clone()); } }
                    1 => w.push(if p[k] { n(77.0) } else { a[k].clone() }),
                    _ => if !p[k] { w.push(a[k].clone()); },
                }
            }
            check!(ok);
            check!(veq(&after, &l(w)));
        }
    }
}
/// the operations on the end of a list and on all of it
pub fn ends() {
    let op = choice(5);
    let len = choice(4);
    let a = ints(len);
    let list = bvar("a");
    if op == 4 {
        match ev(e(X::ListGetLast { list }), &[l(a.clone())]) { Some(x) => { cover!(); check!(len > 0 && veq(&x, &a[len - 1])); } None => { cover!(); check!(len == 0); } }
        return;
    }
    let stmt = s(match op { 0 => K::ListInsertLast { list, value: bvar("c") }, 1 => K::ListAssignLast { list, value: bvar("c") }, 2 => K::ListRemoveLast { list }, _ => K::ListRemoveAll { list } });
    let (ok, after) = on_list(&l(a.clone()), &n(0.0), stmt, &Sys::new());
    let mut w = a.clone();
    let want = match op { 0 => { w.push(n(77.0)); true } 1 => { if len > 0 { w[len - 1] = n(77.0); } len > 0 } 2 => { w.pop(); len > 0 } _ => { w.clear(); true } };
    cover!();
    check!(ok == want);
    check!(veq(&after, &l(w)));
}
/// a random position: always one of the list's, every one possible, and nothing else changes
pub fn random() {
    let op = choice(3);
    let len = choice(4);
    let a: Vec<V> = (0..len).map(|i| n(i as f64)).collect();
    let list = bvar("a");
    if op == 2 {
        match ev(e(X::ListGetRandom { list }), &[l(a)]) {
            Some(V::N(x)) => { let k = x as usize; check!(k < len); if len == 3 { if k == 0 { cover!(); } if k == 1 { cover!(); } if k == 2 { cover!(); } } }
            Some(_) => check!(false),
            None => { cover!(); check!(len == 0); }
        }
        return;
    }
    let stmt = s(if op == 0 { K::ListInsertRandom { list, value: bvar("c") } } else { K::ListAssignRandom { list, value: bvar("c") } });
    let (ok, after) = on_list(&l(a.clone()), &n(0.0), stmt, &Sys::new());
    let after = match after { V::L(x) => x, _ => panic!() };
    if op == 1 && len == 0 { check!(!ok && after.is_empty()); return; }
    check!(ok);
    let at: Vec<usize> = (0..after.len()).filter(|i| after[*i] == n(77.0)).collect();
    check!(at.len() == 1);
    let k = at[0];
    let mut w = a.clone();
    if op == 0 { w.insert(k, n(77.0)); } else { w[k] = n(77.0); }
    check!(after == w);
    if len == 3 { if k == 0 { cover!(); } if k == 1 { cover!(); } if k == 2 { cover!(); } if k == 3 { cover!(); } }
}
/// a list may be its own set of indices
pub fn own_index() {
    let op = choice(4);
    let len = 1 + choice(3);
    let a = ints(len);
    let (list, index) = (bvar("a"), bvar("a"));
    let stmt = s(match op { 0 => K::ListInsert { list, index, value: bvar("c") }, 1 => K::ListAssign { list, index, value: bvar("c") }, 2 => K::ListRemove { list, index }, _ => K::ListInsertLast { list, value: bvar("a") } });
    let n_pos = if op == 0 { len + 1 } else { len };
    let want = positions(&l(a.clone()), n_pos);
    let (ok, after) = on_list(&l(a.clone()), &n(0.0), stmt, &Sys::new());
    let after = match after { V::L(x) => x, _ => panic!() };
    if op == 3 { cover!(); check!(ok && after.len() == len + 1); return; }
    cover!();
    check!(ok == want.is_some());
    match want {
        None => check!(veq(&l(after), &l(a))),
        Some(p) => { let k = p.iter().filter(|x| **x).count(); check!(after.len() == match op { 0 => len + k, 1 => len, _ => len - k }); }
    }
}
/// what is put into a list is the object itself: later changes to it are seen through the list, and what is read is too
pub fn by_reference() {
    let op = choice(4);
    let (x, y) = (any_int(), any_int());
    let (list, value) = (bvar("a"), bvar("b"));
    let put = s(match op { 0 => K::ListInsert { list, index: be(X::Value(AV::Number(1.0))), value }, 1 => K::ListInsertLast { list, value }, 2 => K::ListAssign { list, index: be(X::Value(AV::Number(2.0))), value }, _ => K::ListAssignLast { list, value } });
    let at = match op { 0 => 1.0, 1 => 4.0, 2 => 2.0, _ => 3.0 };
    gc(|mc| {
        let a = val(mc, &ln(&[1.0, 2.0, 3.0]));
        let b = val(mc, &ln(&[x]));
        let prog = vec![put, s(K::ListInsertLast { list: bvar("b"), value: bx(num(y)) }), s(K::ListRemove { list: be(X::ListGet { list: bvar("a"), index: bx(num(at)) }), index: bx(num(1.0)) }), ret(var("b"))];
        match start(mc, &main_role(&["a", "b"], prog), &Sys::new(), Settings::default(), vec![("a", a.clone()), ("b", b)]).to_end(mc, 200) {
            End::Ok(r) => { cover!(); check!(veq(&snap(&r), &ln(&[y]))); match snap(&a) { V::L(v) => check!(veq(&v[at as usize - 1], &ln(&[y]))), _ => check!(false) } }
            _ => check!(false),
        }
    });
}
/// what is not a list is no list to read or change
pub fn only_lists() {
    let v = [n(1.0), t("abc"), V::B(true), t("")][choice(4)].clone();
    let op = choice(9);
    let list = || bvar("a");
    let one = || bx(num(1.0));
    let c = || bvar("c");
    let x = match op { 0 => Some(X::ListGet { list: list(), index: one() }), 1 => Some(X::ListGetLast { list: list() }), 2 => Some(X::ListGetRandom { list: list() }), _ => None };
    cover!();
    match x {
        Some(x) => check!(ev(e(x), &[v]).is_none()),
        None => {
            let stmt = s(match op { 3 => K::ListInsert { list: list(), index: one(), value: c() }, 4 => K::ListInsertLast { list: list(), value: c() }, 5 => K::ListAssign { list: list(), index: one(), value: c() }, 6 => K::ListRemove { list: list(), index: one() }, 7 => K::ListRemoveLast { list: list() }, _ => K::ListRemoveAll { list: list() } });
            let (ok, after) = on_list(&v, &n(0.0), stmt, &Sys::new());
            check!(!ok && after == v);
        }
    }
}
/// every position is possible: draws spread evenly over the random source give each of them once
pub fn random_spread() {
    let op = choice(3);
    let len = choice(5);
    let a: Vec<V> = (0..len).map(|i| n(i as f64)).collect();
    let places = if op == 0 { len + 1 } else { len };
    let mut seen = vec![0; places];
    for d in spread(places) {
        let sys = Sys::new();
        sys.draw.set(Some(d));
        let list = bvar("a");
        let k = if op == 2 {
            match ev_sys(e(X::ListGetRandom { list }), &[l(a.clone())], &sys) { Some(V::N(x)) => x as usize, _ => { check!(false); return } }
        } else {
            let stmt = s(if op == 0 { K::ListInsertRandom { list, value: bvar("c") } } else { K::ListAssignRandom { list, value: bvar("c") } });
            match on_list(&l(a.clone()), &n(0.0), stmt, &sys).1 { V::L(x) => match x.iter().position(|x| *x == n(77.0)) { Some(k) => k, None => { check!(false); return } }, _ => { check!(false); return } }
        };
        check!(k < places);
        seen[k] += 1;
    }
    cover!();
    check!(seen.iter().all(|x| *x == 1));
}
harnesses! { get, change, ends, random, random_spread, own_index, by_reference, only_lists }
