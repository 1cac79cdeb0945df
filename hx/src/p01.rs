//! P01 arithmetic
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::vec;
use alloc::vec::Vec;

fn bin(op: usize) -> Expr {
    let (left, right) = (bvar("a"), bvar("b"));
    e(match op {
        0 => X::Add { values: bx(list(vec![*left, *right])) },
        1 => X::Sub { left, right },
        2 => X::Mul { values: bx(list(vec![*left, *right])) },
        3 => X::Div { left, right },
        _ => X::Mod { left, right },
    })
}
fn raw(op: usize, a: f64, b: f64) -> f64 { match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b } }
/// the four operations on all pairs of numbers: the IEEE result, or an error exactly when it is no number
pub fn scalar() {
    let op = choice(4);
    let (a, b) = (any_num(), any_num());
    match ev(bin(op), &[n(a), n(b)]) {
        Some(V::N(x)) => { cover!(); check!(x.is_finite()); check!(x == raw(op, a, b)); check!(x.to_bits() != 1 << 63); }
        Some(_) => check!(false),
        None => { cover!(); check!(!raw(op, a, b).is_finite()); }
    }
}
/// modulus: mathematical modulus on integers (sign of the divisor), bounded and of the divisor's sign on all numbers
pub fn modulus_int() {
    let (a, b) = if cfg!(feature = "deep") { ((any_u16() as i16) as i64, (any_u16() as i16) as i64) } else { ((any_u8() as i8) as i64, (any_u8() as i8) as i64) };
    match ev(bin(4), &[n(a as f64), n(b as f64)]) {
        Some(V::N(x)) => {
            cover!();
            check!(b != 0);
            let r = a.wrapping_rem(b);
            let r = if r != 0 && (r < 0) != (b < 0) { r + b } else { r };
            check!(x == r as f64);
        }
        Some(_) => check!(false),
        None => { cover!(); check!(b == 0); }
    }
}
pub fn modulus_any() {
    let (a, b) = (any_num(), any_num());
    match ev(bin(4), &[n(a), n(b)]) {
        Some(V::N(x)) => {
            cover!();
            check!(b != 0.0);
            check!(if b > 0.0 { (0.0 <= x) & (x <= b) } else { (b <= x) & (x <= 0.0) });
            // a number already between 0 and the divisor is its own modulus
            if (b > 0.0) & (0.0 <= a) & (a < b) { check!(x == a); }
            if (b < 0.0) & (b < a) & (a <= 0.0) { check!(x == a); }
        }
        Some(_) => check!(false),
        None => { cover!(); check!(b == 0.0); }
    }
}
fn un(op: usize) -> Expr {
    let value = bvar("a");
    e(match op { 0 => X::Neg { value }, 1 => X::Abs { value }, 2 => X::Floor { value }, 3 => X::Ceil { value }, 4 => X::Round { value }, 5 => X::Sqrt { value }, _ => X::Sign { value } })
}
pub fn unary() {
    let op = choice(6);
    let a = any_num();
    let r = ev(un(op), &[n(a)]);
    if op == 5 {
        match r { Some(V::N(x)) => { cover!(); check!(a >= 0.0); check!(x >= 0.0); check!(x.is_finite()); } None => { cover!(); check!(a < 0.0); } _ => check!(false) }
        return;
    }
    let x = match r { Some(V::N(x)) => x, _ => { check!(false); return } };
    cover!();
    check!(x.to_bits() != 1 << 63);
    match op {
        0 => check!((x == -a) & (x == 0.0 - a)),
        1 => check!(if a < 0.0 { x == -a } else { x == a }),
        _ => {
            let big = (a >= 4503599627370496.0) | (a <= -4503599627370496.0);
            if big { check!(x == a); return; }
            if !cfg!(feature = "deep") { assume((a < 1048576.0) & (a > -1048576.0)); }
            let k = if cfg!(feature = "deep") { a as i64 } else { a as i32 as i64 };
            let frac = a - k as f64; // exact
            let down = if (k as f64) > a { k - 1 } else { k };
            let up = if (k as f64) < a { k + 1 } else { k };
            match op {
                2 => check!(x == down as f64),
                3 => check!(x == up as f64),
                _ => check!(x == (if frac >= 0.5 { k + 1 } else if frac <= -0.5 { k - 1 } else { k }) as f64),
            }
        }
    }
}
/// integer square roots are exact
pub fn sqrt_int() {
    let k = any_u8() as f64;
    match ev(un(5), &[n(k * k)]) { Some(V::N(x)) => { cover!(); check!(x == k); } _ => check!(false) }
}
pub const SHAPES: usize = 9;
/// shapes of operands over fresh numbers
fn shape(i: usize) -> V {
    let m = || n(any_int());
    match i {
        0 => m(),
        1 => l(vec![]),
        2 => l(vec![m()]),
        3 => l(vec![m(), m()]),
        4 => l(vec![m(), m(), m()]),
        5 => l(vec![l(vec![m(), m()]), l(vec![m(), m()])]),
        6 => l(vec![l(vec![m()]), l(vec![m(), m()]), m()]),
        7 => l(vec![m(), l(vec![m(), m()])]),
        _ => l(vec![l(vec![l(vec![m()]), m()]), l(vec![])]),
    }
}
/// what a scalar operation does to nested lists: rows of a matrix first, then elements; both truncated to the shorter
fn lift(a: &V, b: &V, mat: bool, f: &dyn Fn(f64, f64) -> f64) -> V {
    let rows = |v: &V| match v { V::L(x) => if mat { if let Some(V::L(_)) = x.first() { Some(x.clone()) } else { None } } else { Some(x.clone()) }, _ => None };
    match (rows(a), rows(b)) {
        (Some(x), Some(y)) => l(x.iter().zip(y.iter()).map(|(x, y)| lift(x, y, mat, f)).collect()),
        (Some(x), None) => l(x.iter().map(|x| lift(x, b, mat, f)).collect()),
        (None, Some(y)) => l(y.iter().map(|y| lift(a, y, mat, f)).collect()),
        (None, None) => if mat { lift(a, b, false, f) } else { match (a, b) { (V::N(x), V::N(y)) => n(norm(f(*x, *y))), _ => panic!() } },
    }
}
pub fn elementwise() {
    let (i, j) = (choice(SHAPES), choice(SHAPES));
    let op = if i == 5 && j == 3 || i == 3 && j == 4 { choice(3) } else { 1 };
    let (a, b) = (shape(i), shape(j));
    let want = lift(&a, &b, true, &|x, y| raw(op, x, y));
    match ev(bin(op), &[a, b]) { Some(r) => { cover!(); check!(veq(&r, &want)); } None => check!(false) }
}
/// every operation with two operands does with lists what it does with their elements
pub fn elementwise_all() {
    let op = choice(11);
    let (i, j) = (choice(SHAPES), choice(SHAPES));
    let x = || { let (left, right) = (bvar("a"), bvar("b")); e(match op {
        5 => X::Pow { base: left, power: right }, 6 => X::Log { value: left, base: right }, 7 => X::Atan2 { y: left, x: right }, 8 => X::StrGet { string: right, index: left },
        9 => X::TextSplit { text: right, mode: ast::TextSplitMode::Custom(left) }, 10 => X::Range { start: left, stop: right }, k => return bin(k),
    }) };
    let k = core::cell::Cell::new(0.0);
    // the numbers in a are 1, 2, .., those in b are such that all operations have values
    fn numbered(v: &V, k: &core::cell::Cell<f64>, f: &dyn Fn(f64) -> f64) -> V { match v { V::L(x) => l(x.iter().map(|x| numbered(x, k, f)).collect()), _ => { k.set(k.get() + 1.0); n(f(k.get())) } } }
    let plain = |i: usize| numbered(&flat(i), &k, &|x| x);
    let a = plain(i);
    k.set(0.0);
    let b = numbered(&flat(j), &k, &|x| if op == 8 || op == 9 { 987654321.0 - 5.0 * x } else { 6.0 - x });
    fn all(a: &V, b: &V, mat: bool, f: &dyn Fn(&V, &V) -> V) -> V {
        let rows = |v: &V| match v { V::L(x) => if mat { if let Some(V::L(_)) = x.first() { Some(x.clone()) } else { None } } else { Some(x.clone()) }, _ => None };
        match (rows(a), rows(b)) {
            (Some(x), Some(y)) => l(x.iter().zip(y.iter()).map(|(x, y)| all(x, y, mat, f)).collect()),
            (Some(x), None) => l(x.iter().map(|x| all(x, b, mat, f)).collect()),
            (None, Some(y)) => l(y.iter().map(|y| all(a, y, mat, f)).collect()),
            (None, None) => if mat { all(a, b, false, f) } else { f(a, b) },
        }
    }
    let want = all(&a, &b, true, &|a, b| match ev(x(), &[a.clone(), b.clone()]) { Some(v) => v, None => { check!(false); panic!() } });
    match ev(x(), &[a, b]) { Some(r) => { cover!(); check!(veq(&r, &want)); } None => check!(false) }
}
fn flat(i: usize) -> V {
    let m = || n(0.0);
    match i {
        0 => m(), 1 => l(vec![]), 2 => l(vec![m()]), 3 => l(vec![m(), m()]), 4 => l(vec![m(), m(), m()]), 5 => l(vec![l(vec![m(), m()]), l(vec![m(), m()])]),
        6 => l(vec![l(vec![m()]), l(vec![m(), m()]), m()]), 7 => l(vec![m(), l(vec![m(), m()])]), _ => l(vec![l(vec![l(vec![m()]), m()]), l(vec![])]),
    }
}
pub fn elementwise_unary() {
    let i = choice(SHAPES);
    let a = shape(i);
    fn lift1(a: &V) -> V { match a { V::L(x) => l(x.iter().map(lift1).collect()), V::N(x) => n(norm(0.0 - *x)), _ => panic!() } }
    let want = lift1(&a);
    match ev(un(0), &[a]) { Some(r) => { cover!(); check!(veq(&r, &want)); } None => check!(false) }
}
/// the operands keep their contents, and the result is a new list
pub fn operands_untouched() {
    let (x, y, k) = (any_int(), any_int(), any_int());
    // [a + k, a, k, a is (a + k)]
    let sum = e(X::Add { values: bx(list(vec![var("a"), var("b")])) });
    let prog = vec![locals(&["r"]), assign("r", sum), s(K::ListAssign { list: bvar("r"), value: bx(num(77.0)), index: bx(num(1.0)) }), ret(list(vec![var("r"), var("a"), var("b")]))];
    gc(|mc| {
        let a = lval(mc, vec![nv(x), nv(y)]);
        let b = if choice(2) == 0 { nv(k) } else { a.clone() };
        let same = matches!(b, Value::List(_));
        let mut r = start(mc, &main_role(&["a", "b"], prog), &Sys::new(), Settings::default(), vec![("a", a), ("b", b)]);
        match r.to_end(mc, 500) {
            End::Ok(v) => {
                cover!();
                let src = ln(&[x, y]);
                let (kx, ky) = if same { (x, y) } else { (k, k) };
                check!(veq(&snap(&v), &l(vec![ln(&[77.0, y + ky]), src.clone(), if same { src } else { n(k) }])));
            }
            _ => check!(false),
        }
    });
}
/// sums and products of any count of operands, given as operands or as one list; minimum and maximum
pub fn variadic() {
    let op = choice(4);
    let count = choice(5);
    let as_list = choice(2) == 1;
    let v: Vec<f64> = (0..count).map(|_| any_int()).collect();
    let values = if as_list { bvar("a") } else { bx(list((0..count).map(|i| var(NAMES[i])).collect())) };
    let x = e(match op { 0 => X::Add { values }, 1 => X::Mul { values }, 2 => X::Min { values }, _ => X::Max { values } });
    let args: Vec<V> = if as_list { vec![ln(&v)] } else { v.iter().map(|x| n(*x)).collect() };
    let r = ev(x, &args);
    if op >= 2 && count == 0 { cover!(); check!(r.is_none()); return; }
    let got = match r { Some(V::N(x)) => x, _ => { check!(false); return } };
    cover!();
    match op {
        0 => check!(got == v.iter().fold(0.0, |a, b| a + b)),
        1 => { let mut w = if count == 0 { 1.0 } else { v[0] }; for x in v.iter().skip(1) { w = norm(w * *x); } check!(got == w) }
        2 => { let (mut all, mut any) = (true, false); for x in &v { all &= got <= *x; any |= got == *x; } check!(all & any); }
        _ => { let (mut all, mut any) = (true, false); for x in &v { all &= got >= *x; any |= got == *x; } check!(all & any); }
    }
}
/// the minimum and maximum are the first of the least and greatest operands in the order of comparisons, spelled as they were
pub fn first_of_equal() {
    let max = choice(2) == 1;
    let words = choice(2) == 1;
    let of = |k: usize| if words { [(t("a"), 1), (t("A"), 1), (t("b"), 2), (t("B"), 2)][k].clone() } else { [(n(1.0), 2), (t("1"), 2), (t(" 1.0"), 2), (n(0.5), 1)][k].clone() };
    let v: Vec<(V, i32)> = (0..3).map(|_| of(choice(4))).collect();
    let mut best = 0;
    for i in 1..3 { if if max { v[i].1 > v[best].1 } else { v[i].1 < v[best].1 } { best = i } }
    let values = bx(list((0..3).map(|i| var(NAMES[i])).collect()));
    let r = ev(e(if max { X::Max { values } } else { X::Min { values } }), &v.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    cover!();
    check!(r.is_some_and(|r| veq(&r, &v[best].0)));
}
/// cycles and shared rows survive: the result has the shape of the operand
pub fn cyclic() {
    let (x, k) = (any_int(), any_int());
    let prog = vec![
        locals(&["m", "r"]), assign("m", list(vec![var("a")])),
        s(K::ListInsertLast { list: bvar("m"), value: bvar("m") }),
        assign("r", e(X::Sub { left: bvar("m"), right: bvar("b") })),
        ret(list(vec![var("r"), e(X::Identical { left: bvar("r"), right: bx(e(X::ListGet { list: bvar("r"), index: bx(num(2.0)) })) }), e(X::Identical { left: bvar("r"), right: bvar("m") })])),
    ];
    gc(|mc| {
        let mut r = start(mc, &main_role(&["a", "b"], prog), &Sys::new(), Settings::default(), vec![("a", nv(x)), ("b", nv(k))]);
        match r.to_end(mc, 500) {
            End::Ok(v) => match snap(&v) {
                V::L(v) => { cover!(); check!(veq(&v[1], &V::B(true))); check!(veq(&v[2], &V::B(false))); match &v[0] { V::L(q) => { check!(q.len() == 2); check!(veq(&q[0], &n(x - k))); } _ => check!(false) } }
                _ => check!(false),
            },
            _ => check!(false),
        }
    });
}
/// operands that are no numbers are refused, numeric text is accepted
pub fn operand_kinds() {
    let op = choice(5);
    let k = choice(6);
    let a = any_int();
    let (v, num) = match k { 0 => (t("12"), Some(12.0)), 1 => (t(" -0.5 "), Some(-0.5)), 2 => (t("x1"), None), 3 => (t(""), None), 4 => (V::B(true), None), _ => (t("0x1f"), Some(31.0)) };
    let left = choice(2) == 0;
    if op == 4 && k == 1 { return; }
    let r = ev(bin(op), &if left { [v, n(a)] } else { [n(a), v] });
    match num {
        None => { cover!(); check!(r.is_none()); }
        Some(z) => {
            if op == 4 { return; }
            let (p, q) = if left { (z, a) } else { (a, z) };
            match r { Some(V::N(x)) => { cover!(); check!(x == raw(op, p, q)); } None => check!(!raw(op, p, q).is_finite()), _ => check!(false) }
        }
    }
}
/// power, logarithm and trigonometry at landmark points, through the argument order of the blocks
pub fn landmarks() {
    let (x, lo, hi): (Expr, f64, f64) = match choice(13) {
        0 => (e(X::Pow { base: bx(num(2.0)), power: bx(num(10.0)) }), 1024.0, 1024.0),
        1 => (e(X::Pow { base: bx(num(9.0)), power: bx(num(0.5)) }), 3.0, 3.0),
        2 => (e(X::Log { value: bx(num(8.0)), base: bx(num(2.0)) }), 2.999999999, 3.000000001),
        3 => (e(X::Sin { value: bx(num(30.0)) }), 0.499999999, 0.500000001),
        4 => (e(X::Cos { value: bx(num(60.0)) }), 0.499999999, 0.500000001),
        5 => (e(X::Tan { value: bx(num(45.0)) }), 0.999999999, 1.000000001),
        6 => (e(X::Asin { value: bx(num(0.5)) }), 29.99999999, 30.00000001),
        7 => (e(X::Acos { value: bx(num(0.5)) }), 59.99999999, 60.00000001),
        8 => (e(X::Atan { value: bx(num(-1.0)) }), -45.00000001, -44.99999999),
        9 => (e(X::Atan2 { y: bx(num(1.0)), x: bx(num(-1.0)) }), 134.9999999, 135.0000001),
        10 => (e(X::Pow { base: bx(num(-8.0)), power: bx(num(0.5)) }), 1.0, 0.0),
        11 => (e(X::Log { value: bx(num(0.0)), base: bx(num(2.0)) }), 1.0, 0.0),
        _ => (e(X::Asin { value: bx(num(2.0)) }), 1.0, 0.0),
    };
    match ev(x, &[]) { Some(V::N(x)) => { cover!(); check!(lo <= x && x <= hi); } None => { cover!(); check!(lo > hi); } _ => check!(false) }
}
/// a result is a new list with new rows at every depth, an empty one too
pub fn fresh() {
    let a = match choice(4) { 0 => l(vec![]), 1 => l(vec![l(vec![]), n(any_int())]), 2 => l(vec![l(vec![n(any_int())]), n(1.0)]), _ => l(vec![n(any_int())]) };
    let k = choice(6);
    let x = match k { 0..=2 => un(k), 3 => e(X::Sub { left: bvar("a"), right: bx(num(1.0)) }), 4 => e(X::Sub { left: bx(num(1.0)), right: bvar("a") }), _ => e(X::Add { values: bx(list(vec![var("a"), var("a")])) }) };
    let first = |v: &str| e(X::ListGet { list: bvar(v), index: bx(num(1.0)) });
    let empty = matches!(&a, V::L(x) if x.is_empty());
    let same_row = if empty { boolean(false) } else { e(X::Identical { left: bx(first("r")), right: bx(first("a")) }) };
    let nested = matches!(&a, V::L(x) if matches!(x.first(), Some(V::L(_))));
    let prog = vec![locals(&["r"]), assign("r", x), ret(list(vec![e(X::Identical { left: bvar("r"), right: bvar("a") }), same_row, e(X::ListLen { value: bvar("r") })]))];
    let len = match &a { V::L(x) => x.len() as f64, _ => 0.0 };
    gc(|mc| {
        let v = val(mc, &a);
        let mut r = start(mc, &main_role(&["a"], prog), &Sys::new(), Settings::default(), vec![("a", v)]);
        match r.to_end(mc, 500) {
            End::Ok(v) => match snap(&v) { V::L(v) => { cover!(); check!(veq(&v[0], &V::B(false))); if nested { check!(veq(&v[1], &V::B(false))); } check!(veq(&v[2], &n(len))); } _ => check!(false) },
            _ => check!(false),
        }
    });
}
/// a sum or product of one operand is that operand as a number, or element by element where it is a list; of several of any kind, from the left
pub fn variadic_kinds() {
    let mul = choice(2) == 1;
    let count = 1 + choice(2);
    let as_list = choice(2) == 1;
    let of = |k: usize| -> (V, Option<V>) { match k {
        0 => { let x = any_int(); (n(x), Some(n(x))) }
        1 => (t("3"), Some(n(3.0))),
        2 => (t("q"), None),
        3 => (V::B(true), None),
        4 => { let x = any_int(); (l(vec![t("5"), n(x)]), Some(l(vec![n(5.0), n(x)]))) }
        5 => (l(vec![]), Some(l(vec![]))),
        _ => { let x = any_int(); (l(vec![l(vec![n(x), t("1")]), l(vec![t(" 2 ")])]), Some(l(vec![l(vec![n(x), n(1.0)]), l(vec![n(2.0)])]))) }
    } };
    let v: Vec<_> = (0..count).map(|_| of(choice(7))).collect();
    let values = bx(if as_list { var("a") } else { list((0..count).map(|i| var(NAMES[i])).collect()) });
    let x = e(if mul { X::Mul { values } } else { X::Add { values } });
    let raw_args: Vec<V> = v.iter().map(|x| x.0.clone()).collect();
    let args = if as_list { vec![l(raw_args)] } else { raw_args };
    let want = match (&v[0].1, if count == 2 { Some(&v[1].1) } else { None }) {
        (Some(a), None) => Some(a.clone()),
        (Some(a), Some(Some(b))) => Some(lift(a, b, true, &|x, y| if mul { x * y } else { x + y })),
        (None, Some(Some(V::L(b)))) | (Some(V::L(b)), Some(None)) if b.is_empty() => Some(l(vec![])),
        _ => None,
    };
    let r = ev(x, &args);
    cover!();
    match (want, r) { (Some(w), Some(r)) => check!(veq(&r, &w)), (None, None) => (), _ => check!(false) }
}
harnesses! { scalar, modulus_int, modulus_any, unary, sqrt_int, elementwise, elementwise_all, elementwise_unary, operands_untouched, variadic, fresh, variadic_kinds, first_of_equal, cyclic, operand_kinds, landmarks }
