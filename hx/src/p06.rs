//! P06 text: letters, joining, splitting, CSV, JSON, lines
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use ast::TextSplitMode as M;

fn split(mode: M) -> Expr { e(X::TextSplit { text: bvar("a"), mode }) }
fn texts(x: &[&str]) -> V { l(x.iter().map(|x| t(x)).collect()) }
/// a text of arbitrary ASCII characters
fn ascii(k: usize) -> Vec<u8> { (0..k).map(|_| { let c = any_u8(); assume(c < 128); c }).collect() }
fn st(b: &[u8]) -> V { V::T(String::from_utf8(b.to_vec()).unwrap()) }
/// ASCII letters: one each, but a carriage return and line feed together are one
fn letters(b: &[u8]) -> Vec<V> {
    let mut o = vec![]; let mut i = 0;
    while i < b.len() { let k = if i + 1 < b.len() && b[i] == b'\r' && b[i + 1] == b'\n' { 2 } else { 1 }; o.push(st(&b[i..i + k])); i += k; }
    o
}
pub const U: [(&str, &[&str]); 10] = [
    ("", &[]), ("h\u{e9}llo", &["h", "\u{e9}", "l", "l", "o"]), ("e\u{301}a\u{308}\u{323}", &["e\u{301}", "a\u{308}\u{323}"]), ("\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}!", &["\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}", "!"]),
    ("\u{1f1fa}\u{1f1f8}\u{1f1e9}\u{1f1ea}", &["\u{1f1fa}\u{1f1f8}", "\u{1f1e9}\u{1f1ea}"]), ("\u{1112}\u{1161}\u{11ab}\u{ae00}", &["\u{1112}\u{1161}\u{11ab}", "\u{ae00}"]), ("a\r\nb\n", &["a", "\r\n", "b", "\n"]), ("\u{1f44b}\u{1f3fd}x", &["\u{1f44b}\u{1f3fd}", "x"]), ("\u{4f60}\u{597d}", &["\u{4f60}", "\u{597d}"]),
    ("\u{928}\u{940}x\u{928}\u{93f}", &["\u{928}\u{940}", "x", "\u{928}\u{93f}"]),
];
fn one(x: Option<V>, want: Option<V>) { match (x, want) { (Some(x), Some(y)) => check!(veq(&x, &y)), (None, None) => (), _ => check!(false) } }
fn about_letters(v: V, ls: Vec<V>) {
    let i = any_int();
    cover!();
    one(ev(e(X::StrLen { value: bvar("a") }), &[v.clone()]), Some(n(ls.len() as f64)));
    one(ev(split(M::Letter), &[v.clone()]), Some(l(ls.clone())));
    one(ev(e(X::StrGetLast { string: bvar("a") }), &[v.clone()]), ls.last().cloned());
    let mut w = None;
    for k in 0..ls.len() { if i == (k + 1) as f64 { w = Some(ls[k].clone()); } }
    one(ev(e(X::StrGet { string: bvar("a"), index: bvar("b") }), &[v.clone(), n(i)]), w);
    one(ev(e(X::StrGet { string: bvar("a"), index: bvar("b") }), &[v.clone(), n(1.5)]), None);
    match ev(e(X::StrGetRandom { string: bvar("a") }), &[v]) { Some(x) => { cover!(); check!(ls.iter().any(|y| *y == x)) } None => check!(ls.is_empty()) }
}
/// length, letters, letter at an index, last and random letter agree on what the letters are
pub fn letters_ascii() { let b = ascii(choice(if cfg!(feature = "deep") { 5 } else { 4 })); about_letters(st(&b), letters(&b)); }
pub fn letters_unicode() { let (s, ls) = U[choice(10)]; about_letters(t(s), ls.iter().map(|x| t(x)).collect()); }
pub fn letters_of_numbers() { about_letters(n(-12.5), texts(&["-", "1", "2", ".", "5"]).items()); }
trait Items { fn items(self) -> Vec<V>; }
impl Items for V { fn items(self) -> Vec<V> { match self { V::L(x) => x, _ => panic!() } } }
/// on lists of texts and lists of indices the letter blocks work element by element
pub fn letters_lifted() {
    let get = || e(X::StrGet { string: bvar("a"), index: bvar("b") });
    cover!();
    one(ev(get(), &[t("abc"), ln(&[3.0, 1.0])]), Some(texts(&["c", "a"])));
    one(ev(get(), &[texts(&["abc", "xyz"]), n(2.0)]), Some(texts(&["b", "y"])));
    one(ev(get(), &[texts(&["abc", "xyz", "k"]), ln(&[1.0, 3.0])]), Some(texts(&["a", "z"])));
    one(ev(get(), &[l(vec![texts(&["ab", "cd"]), texts(&["ef"])]), n(1.0)]), Some(l(vec![texts(&["a", "c"]), texts(&["e"])])));
    one(ev(get(), &[texts(&["abc", "x"]), n(2.0)]), None);
    one(ev(e(X::StrLen { value: bvar("a") }), &[l(vec![t("ab"), texts(&["", "xyz"])])]), Some(l(vec![n(2.0), ln(&[0.0, 3.0])])));
    one(ev(e(X::StrGetLast { string: bvar("a") }), &[texts(&["ab", "x"])]), Some(texts(&["b", "x"])));
    one(ev(split(M::Letter), &[texts(&["ab", ""])]), Some(l(vec![texts(&["a", "b"]), l(vec![])])));
    one(ev(split(M::Tab), &[texts(&["a\tb", ""])]), Some(l(vec![texts(&["a", "b"]), texts(&[""])])));
}
/// every letter is possible at random
pub fn random_letter() {
    let part = choice(3);
    if part == 0 { match ev(e(X::StrGetRandom { string: bvar("a") }), &[t("xyz")]) { Some(V::T(x)) => match x.as_str() { "x" => cover!(), "y" => cover!(), "z" => cover!(), _ => check!(false) }, _ => check!(false) } return }
    // on a list every element draws for itself
    let s = Sys::new();
    if part == 1 { match ev_sys(e(X::StrGetRandom { string: bvar("a") }), &[texts(&["xyz", "xyz"])], &s) { Some(V::L(x)) => { check!(x.len() == 2 && s.draws.get() >= 2); if x[0] != x[1] { cover!(); } if x[0] == x[1] { cover!(); } } _ => check!(false) } return }
    // also where two elements are one and the same list
    let prog = vec![locals(&["r"]), assign("r", list(vec![txt("xyz")])), ret(e(X::StrGetRandom { string: bx(list(vec![var("r"), var("r")])) }))];
    gc(|mc| match start(mc, &main_role(&[], prog), &s, Settings::default(), vec![]).to_end(mc, 200) { End::Ok(v) => match snap(&v) { V::L(x) => { check!(x.len() == 2 && s.draws.get() >= 2); if x[0] != x[1] { cover!(); } } _ => check!(false) }, _ => check!(false) });
}
/// draws spread evenly over the random source give each letter once
pub fn random_letter_spread() {
    let (text, count) = [("abc", 3), ("vwxyz", 5), ("e\u{301}o", 2), ("7", 1)][choice(4)];
    let mut seen: Vec<V> = vec![];
    for d in spread(count) {
        let sys = Sys::new();
        sys.draw.set(Some(d));
        match ev_sys(e(X::StrGetRandom { string: bvar("a") }), &[t(text)], &sys) { Some(x) => { check!(!seen.iter().any(|y| *y == x)); seen.push(x); } None => check!(false) }
    }
    cover!();
    check!(seen.len() == count);
}
/// joining writes its parts one after the other
pub fn join() {
    let k = choice(4);
    let b: Vec<u8> = (0..k).map(|_| { let c = any_u8(); assume((c >= 32) & (c < 127)); c }).collect();
    let parts: Vec<V> = b.iter().map(|c| st(&[*c])).collect();
    let dynamic = choice(2) == 1;
    let values = if dynamic { bvar("a") } else { bx(list((0..k).map(|i| var(NAMES[i])).collect())) };
    cover!();
    one(ev(e(X::StrCat { values }), &if dynamic { vec![l(parts)] } else { parts }), Some(st(&b)));
}
pub fn join_kinds() {
    let (v, w) = [(n(3.0), "3"), (n(-0.5), "-0.5"), (V::B(true), "true"), (t("\u{e9}"), "\u{e9}"), (l(vec![t("a"), n(1.0), l(vec![]), V::B(false)]), "[a,1,[],false]")][choice(5)].clone();
    cover!();
    one(ev(e(X::StrCat { values: bx(list(vec![txt("<"), var("a"), txt(">")])) }), &[v]), Some(V::T(["<", w, ">"].concat())));
}
/// a code point and the character it stands for
pub fn unicode() {
    let x = any_num();
    if !cfg!(feature = "deep") { assume((x <= 300.0) | (x > 55200.0) & (x < 57400.0) | (x > 1114000.0)); }
    let ok = { let k = x as u32; (k as f64 == x) & (k <= 0x10ffff) & !((k >= 0xd800) & (k <= 0xdfff)) };
    match ev(e(X::UnicodeToChar { value: bvar("a") }), &[n(x)]) {
        Some(c) => { cover!(); check!(ok); one(ev(e(X::CharToUnicode { value: bvar("a") }), &[c]), Some(n(x))); }
        None => { cover!(); check!(!ok); }
    }
}
pub fn unicode_texts() {
    let (s, w) = [("A", n(65.0)), ("", l(vec![])), ("ab", ln(&[97.0, 98.0])), ("e\u{301}", ln(&[101.0, 769.0])), ("\u{1f600}", n(128512.0)), ("5", n(53.0))][choice(6)].clone();
    cover!();
    one(ev(e(X::CharToUnicode { value: bvar("a") }), &[t(s)]), Some(w));
    one(ev(e(X::UnicodeToChar { value: bvar("a") }), &[ln(&[97.0, 128512.0])]), Some(texts(&["a", "\u{1f600}"])));
}
/// splitting by a pattern: the parts joined with it give the text back and none contains it
pub fn split_by() {
    let pat = ["a", "ab", "aa", "aba"][choice(4)];
    let k = choice(if cfg!(feature = "deep") { 8 } else { 6 });
    let b: Vec<u8> = (0..k).map(|_| b'a' + (any_u8() & 1)).collect();
    let p = pat.as_bytes();
    let mut w = vec![]; let (mut from, mut i) = (0, 0);
    while i < k { if i + p.len() <= k && (0..p.len()).all(|j| b[i + j] == p[j]) { w.push(st(&b[from..i])); i += p.len(); from = i; } else { i += 1; } }
    w.push(st(&b[from..]));
    cover!();
    one(ev(e(X::TextSplit { text: bvar("a"), mode: M::Custom(bvar("b")) }), &[st(&b), t(pat)]), Some(l(w)));
}
/// splitting at tabs, carriage returns and line ends
pub fn split_at() {
    let mode = choice(3);
    let k = choice(if cfg!(feature = "deep") { 6 } else { 5 });
    let b: Vec<u8> = (0..k).map(|_| { let c = any_u8(); assume((c == b'x') | (c == b'\t') | (c == b'\r') | (c == b'\n')); c }).collect();
    let sep = [b'\t', b'\r', b'\n'][mode];
    let mut w: Vec<Vec<u8>> = vec![vec![]];
    for c in &b { if *c == sep { w.push(vec![]); } else { w.last_mut().unwrap().push(*c); } }
    if mode == 2 { // a final line end closes its line; a carriage return before a line end belongs to it
        let last = w.len() - 1;
        for r in &mut w[..last] { if r.last().is_some_and(|c| *c == b'\r') { r.pop(); } }
        if w[last].is_empty() { w.pop(); }
    }
    cover!();
    one(ev(split([M::Tab, M::CR, M::LF][mode].clone()), &[st(&b)]), Some(l(w.iter().map(|x| st(x)).collect())));
}
pub fn split_words() {
    let (s, w): (&str, &[&str]) = [("hello, big  world!", &["hello", "big", "world"][..]), ("", &[]), (" ... ", &[]), ("it's 3.5\tok\n", &["it's", "3.5", "ok"]), ("na\u{ef}ve caf\u{e9}", &["na\u{ef}ve", "caf\u{e9}"])][choice(5)];
    cover!();
    one(ev(split(M::Word), &[t(s)]), Some(texts(w)));
}
fn cell(k: usize) -> V { let b: Vec<u8> = (0..k).map(|_| { let c = any_u8(); assume((c == b'x') | (c == b'"') | (c == b',') | (c == b'\n') | (c == b'\r') | (c == b' ')); c }).collect(); st(&b) }
/// a table of texts written as CSV reads back as the same table
pub fn csv() {
    let k = choice(5);
    let c = |i: usize| cell([0, 1, 2][i]);
    let table = match k {
        0 => l(vec![l(vec![cell(1 + choice(2))])]),
        1 => l(vec![l(vec![cell(1), cell(choice(2))])]),
        2 => l(vec![l(vec![cell(1)]), l(vec![cell(choice(2))])]),
        3 => l(vec![l(vec![c(0), c(0)]), l(vec![c(1)])]),
        _ => l(vec![l(vec![c(0)]), l(vec![c(0)])]),
    };
    let text = match ev(e(X::ListCsv { value: bvar("a") }), &[table.clone()]) { Some(x) => x, None => { check!(false); return } };
    cover!();
    one(ev(split(M::Csv), &[text]), Some(table.clone()));
    // one row alone is written like a table of that row
    if k <= 1 { let row = match &table { V::L(x) => x[0].clone(), _ => panic!() }; one(ev(split(M::Csv), &[ev(e(X::ListCsv { value: bvar("a") }), &[row]).unwrap()]), Some(table)); }
}
pub fn csv_texts() {
    let (s, w) = [("", Some(l(vec![]))), ("a,b", Some(l(vec![texts(&["a", "b"])]))), ("a\n", Some(l(vec![texts(&["a"]), texts(&[""])]))), ("\"a\"\"b\",c", Some(l(vec![texts(&["a\"b", "c"])]))), ("\"a\nb\"", Some(l(vec![texts(&["a\nb"])]))), ("a\"b", None), ("\"a", None), ("\"a\"b", None), ("\"\"", Some(l(vec![texts(&[""])])))][choice(9)].clone();
    cover!();
    one(ev(split(M::Csv), &[t(s)]), w);
}
pub fn csv_values() {
    cover!();
    one(ev(e(X::ListCsv { value: bvar("a") }), &[l(vec![n(1.0), t("x y"), n(-2.5)])]), Some(t("1,x y,-2.5")));
    one(ev(e(X::ListCsv { value: bvar("a") }), &[l(vec![l(vec![n(1.0)]), n(2.0)])]), None);
    one(ev(e(X::ListCsv { value: bvar("a") }), &[l(vec![V::B(true)])]), None);
    one(ev(e(X::ListCsv { value: bvar("a") }), &[n(1.0)]), None);
    one(ev(e(X::ListCsv { value: bvar("a") }), &[l(vec![l(vec![l(vec![])])])]), None);
}
/// JSON of lists, texts, numbers and booleans reads back as the same value
pub fn json() {
    let k = choice(if cfg!(feature = "deep") { 4 } else { 3 });
    let b: Vec<u8> = ascii(k);
    let v = match choice(3) { 0 => l(vec![st(&b)]), 1 => l(vec![l(vec![st(&b), V::B(true)]), st(&b)]), _ => l(vec![l(vec![]), V::B(false), st(&b)]) };
    let text = match ev(e(X::ListJson { value: bvar("a") }), &[v.clone()]) { Some(x) => x, None => { check!(false); return } };
    cover!();
    one(ev(split(M::Json), &[text]), Some(v));
}
pub fn json_numbers() {
    let v = l(vec![n([0.0, 1.0, -2.5, 1e300, 5e-324, 0.1, 9007199254740992.0, 1e21, -1e-7][choice(9)]), t("\u{e9}\u{1f600}\u{2028}")]);
    let text = match ev(e(X::ListJson { value: bvar("a") }), &[v.clone()]) { Some(x) => x, None => { check!(false); return } };
    cover!();
    one(ev(split(M::Json), &[text]), Some(v));
}
/// the reading of decimals with more than about 16 digits
pub fn json_numbers_long() {
    let v = l(vec![n(9007199254740991.0)]);
    let text = match ev(e(X::ListJson { value: bvar("a") }), &[v.clone()]) { Some(x) => x, None => { check!(false); return } };
    cover!();
    let back = ev(split(M::Json), &[text]);
    check!(back == Some(v));
}
pub fn json_texts() {
    let (s, w) = [("[1, \"a\", [true]]", Some(l(vec![n(1.0), t("a"), l(vec![V::B(true)])]))), ("{\"k\": 1, \"m\": {\"x\": \"y\"}}", Some(l(vec![l(vec![t("k"), n(1.0)]), l(vec![t("m"), l(vec![l(vec![t("x"), t("y")])])])]))), ("7", Some(n(7.0))), ("\"\\u00e9\"", Some(t("\u{e9}"))), ("[1,]", None), ("", None), ("null", None), ("[null]", None), ("1 2", None), ("{\"a\" 1}", None), ("1e400", None)][choice(11)].clone();
    cover!();
    one(ev(split(M::Json), &[t(s)]), w);
}
pub fn json_kinds() {
    let k = choice(3);
    let x = match k { 0 => e(X::This), 1 => clos(&[], &[], vec![]), _ => var("a") };
    let mut prog = vec![locals(&["a"]), assign("a", list(vec![num(1.0)]))];
    if k == 2 { prog.push(s(K::ListInsertLast { list: bvar("a"), value: bvar("a") })); }
    prog.push(ret(e(X::ListJson { value: bx(list(vec![x])) })));
    gc(|mc| match start(mc, &main_role(&[], prog), &Sys::new(), Settings::default(), vec![]).to_end(mc, 100) { End::Err(..) => cover!(), _ => check!(false) });
}
/// lines written and read again
pub fn lines() {
    let k = choice(4);
    let b: Vec<V> = (0..k).map(|_| { let c = any_u8(); assume((c >= 32) & (c < 127)); st(&[c]) }).collect();
    let text = match ev(e(X::ListLines { value: bvar("a") }), &[l(b.clone())]) { Some(x) => x, None => { check!(false); return } };
    if let V::T(x) = &text { check!(x.len() == if k == 0 { 0 } else { 2 * k - 1 }); }
    cover!();
    one(ev(split(M::LF), &[text]), Some(l(b)));
    one(ev(e(X::ListLines { value: bvar("a") }), &[l(vec![t("a"), n(2.0), t("")])]), Some(t("a\n2\n")));
    one(ev(e(X::ListLines { value: bvar("a") }), &[l(vec![t("a"), V::B(true)])]), None);
    one(ev(e(X::ListLines { value: bvar("a") }), &[t("a")]), None);
}
harnesses! { letters_ascii, letters_unicode, letters_of_numbers, letters_lifted, random_letter, random_letter_spread, join, join_kinds, unicode, unicode_texts, split_by, split_at, split_words, csv, csv_texts, csv_values, json, json_numbers, json_numbers_long, json_texts, json_kinds, lines }
