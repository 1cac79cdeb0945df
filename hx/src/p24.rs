//! P24 maps and symbol tables
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::format; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::vecmap::VecMap;
const LEN: usize = if cfg!(feature = "deep") { 4 } else { 3 };
fn agrees<const S: bool>(m: &mut VecMap<i32, u64, S>, o: &[(i32, u64)]) -> bool {
    let q = any_i32();
    let want = o.iter().find(|x| x.0 == q).map(|x| x.1);
    let mut r = m.len() == o.len() && m.is_empty() == o.is_empty();
    r &= m.get(&q).copied() == want && m.get_mut(&q).map(|x| *x) == want;
    let mut o = o.to_vec();
    if S { o.sort_by_key(|x| x.0) }
    let list = |r: &mut bool, v: Vec<(i32, u64)>| { *r &= v.len() == o.len(); if *r { for i in 0..v.len() { *r &= v[i].0 == o[i].0 && v[i].1 == o[i].1 } } };
    list(&mut r, m.iter().map(|(k, v)| (*k, *v)).collect());
    list(&mut r, m.iter_mut().map(|(k, v)| (*k, *v)).collect());
    list(&mut r, m.as_slice().iter().map(|e| (e.key, e.value)).collect());
    r
}
fn map<const S: bool>() {
    let mut m: VecMap<i32, u64, S> = if choice(2) == 0 { VecMap::new() } else { VecMap::with_capacity(2) };
    let mut o: Vec<(i32, u64)> = vec![];
    for _ in 0..choice(LEN + 1) {
        let (k, v) = (any_i32(), any_u64());
        if choice(2) == 0 || o.is_empty() {
            let old = m.insert(k, v);
            match o.iter().position(|x| x.0 == k) { Some(i) => { check!(old == Some(o[i].1)); o[i].1 = v } None => { check!(old.is_none()); o.push((k, v)) } }
        } else {
            let i = o.iter().position(|x| x.0 == k);
            match (m.get_mut(&k), i) { (Some(x), Some(i)) => { *x = v; o[i].1 = v } (None, None) => (), _ => check!(false) }
        }
    }
    check!(agrees(&mut m, &o));
    let n = m.len();
    let all: Vec<(i32, u64)> = m.into_iter().collect();
    check!(all.len() == n);
    let mut m: VecMap<i32, u64, S> = all.iter().rev().copied().collect();
    o = o.iter().copied().collect();
    if !S { o.reverse() }
    check!(agrees(&mut m, &o));
}
/// maps sorted by key
pub fn sorted() { map::<true>(); cover!(); }
/// maps in order of insertion
pub fn unsorted() { map::<false>(); cover!(); }
fn grown<const S: bool>() {
    const KEYS: [i32; 6] = [30, 10, -7, 50, 20, 40];
    let n = 4 + choice(3);
    let mut o: Vec<(i32, u64)> = KEYS[..n].iter().map(|k| (*k, any_u64())).collect();
    let mut m: VecMap<i32, u64, S> = if choice(2) == 0 { o.iter().copied().collect() } else { let mut m = VecMap::new(); for (k, v) in &o { check!(m.insert(*k, *v).is_none()) } m };
    for _ in 0..if cfg!(feature = "deep") { 2 } else { 1 } {
        let (k, v) = (any_i32(), any_u64());
        let old = m.insert(k, v);
        match o.iter().position(|x| x.0 == k) { Some(i) => { check!(old == Some(o[i].1)); o[i].1 = v } None => { check!(old.is_none()); o.push((k, v)) } }
    }
    check!(agrees(&mut m, &o));
}
/// the same of maps that have more keys
pub fn many_sorted() { grown::<true>(); cover!(); }
pub fn many_unsorted() { grown::<false>(); cover!(); }

/// a name of one or two characters, one of them arbitrary
fn name() -> String {
    const A: [&str; 2] = ["a", "ab"];
    match choice(3) { 2 => { let c = any_u8(); assume((c >= b'A') & (c <= b'z')); format!("{}", c as char) } k => A[k].into() }
}
/// a symbol table holds for every name the value last given to it; what is shared stays shared until the name is redefined
pub fn symbols() {
    gc(|mc| {
        let mut tabs: [SymbolTable<'_, Cu, Sys>; 2] = [SymbolTable::default(), SymbolTable::default()];
        let mut o: [Vec<(String, usize)>; 2] = [vec![], vec![]];
        let mut cells: Vec<f64> = vec![];
        let two = if cfg!(feature = "deep") { 4 } else { 3 };
        for step in 0..two {
            let t = if step == 0 { 0 } else { choice(2) };
            match if step == 0 { 0 } else { choice(4) } {
                // a new variable, or an old one anew
                0 => {
                    let (k, v) = (name(), any_int());
                    tabs[t].define_or_redefine(&k, Shared::Unique(nv(v)));
                    cells.push(v);
                    match o[t].iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = cells.len() - 1, None => o[t].push((k, cells.len() - 1)) }
                }
                // a variable is given a value
                1 => {
                    if o[t].is_empty() { stop() }
                    let i = choice(o[t].len());
                    let (k, c) = o[t][i].clone();
                    let v = any_int();
                    match tabs[t].lookup_mut(&k) { Some(x) => x.set(mc, nv(v)), None => check!(false) }
                    cells[c] = v;
                }
                // a variable becomes shared with one of the other table
                2 => {
                    if o[t].is_empty() { stop() }
                    let i = choice(o[t].len());
                    let (k, c) = o[t][i].clone();
                    let to = name();
                    let a = match tabs[t].lookup_mut(&k) { Some(x) => x.alias(mc), None => { check!(false); return } };
                    tabs[1 - t].define_or_redefine(&to, a);
                    match o[1 - t].iter_mut().find(|x| x.0 == to) { Some(x) => x.1 = c, None => o[1 - t].push((to, c)) }
                }
                // a copy of a table shares nothing
                _ => {
                    let copy = tabs[t].clone();
                    for x in &mut o[t] { cells.push(cells[x.1]); x.1 = cells.len() - 1; }
                    tabs[t] = copy;
                }
            }
        }
        cover!();
        for t in 0..2 {
            let q = name();
            let want = o[t].iter().find(|x| x.0 == q).map(|x| cells[x.1]);
            let got = tabs[t].lookup(&q).map(|x| match &*x.get() { Value::Number(x) => x.get(), _ => -1e9 });
            check!(got == want);
            check!(tabs[t].len() == o[t].len() && tabs[t].is_empty() == o[t].is_empty());
            let all: Vec<(String, f64)> = tabs[t].iter().map(|(k, x)| (String::from(k.as_str()), match &*x.get() { Value::Number(x) => x.get(), _ => -1e9 })).collect();
            check!(all.len() == o[t].len());
            let mut r = true;
            for (k, c) in &o[t] { r &= all.iter().find(|x| x.0 == *k).map(|x| x.1) == Some(cells[*c]); }
            check!(r);
        }
    });
}
harnesses!(sorted, unsorted, many_sorted, many_unsorted, symbols);
