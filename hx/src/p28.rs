//! P28 notes
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use core::fmt::Write;

const SEMI: [(char, i64); 7] = [('C', 0), ('D', 2), ('E', 4), ('F', 5), ('G', 7), ('A', 9), ('B', 11)];
fn midi(letter: u8, octave: i64, delta: i64) -> Option<i64> { let up = (letter as char).to_ascii_uppercase(); for (c, s) in SEMI { if c == up { return Some(12 * (octave + 1) + s + delta) } } None }
fn fits(m: Option<i64>) -> Option<u8> { match m { Some(m) if (0..128).contains(&m) => Some(m as u8), _ => None } }
fn got(x: Option<Note>) -> Option<u8> { x.map(|x| x.get_midi().0) }
const ACC: [(&str, i64); 11] = [("", 0), ("#", 1), ("s", 1), ("♯", 1), ("b", -1), ("♭", -1), ("n", 0), ("♮", 0), ("##", 2), ("bb", -2), ("#♭n", 0)];
const OCT: [(&str, i64); 18] = [("+9", 9), ("09", 9), ("-09", -9), ("-01", -1), ("4", 4), ("-1", -1), ("+5", 5), ("0", 0), ("9", 9), ("10", 10), ("-2", -2), ("20", 20), ("22", 22), ("-1000", -1000), ("178956970", 178956970), ("2147483647", 2147483647), ("-2147483648", -2147483648), ("99999999999", 99999999999)];
/// a letter, accidentals and one octave in any order
pub fn names() {
    let letter = any_u8() & 127;
    assume(letter > 32);
    let (acc, delta) = ACC[choice(ACC.len())];
    let (oct, octave) = OCT[choice(OCT.len())];
    let mut s = String::new();
    let pad = choice(2) == 1;
    if pad { s.push(' ') }
    s.push(letter as char);
    if choice(2) == 0 { s.push_str(acc); s.push_str(oct) } else { s.push_str(oct); s.push_str(acc) }
    if pad { s.push('\t') }
    cover!();
    let note = Note::from_name(&s);
    check!(got(note) == fits(midi(letter, octave, delta)));
    if let Some(note) = note { check!(note.get_midi().1 == (acc != "")) }
}
/// other texts are not notes
pub fn strangers() {
    let c = char::from_u32((any_u16() & 0x7ff) as u32).unwrap_or('x');
    let mut s = String::from("a");
    let k = choice(4);
    match k { 0 => { s.push(c); s.push('4') } 1 => { s.push('4'); s.push(c) } 2 => { s.push('4'); s.push('#'); s.push(c); s.push('n') } _ => s.push(c) }
    cover!();
    let note = got(Note::from_name(&s));
    let acc = match c { '#' | 's' => Some(1), 'b' => Some(-1), 'n' => Some(0), _ => None };
    let digit = if c.is_ascii_digit() { Some(c as i64 - 48) } else { None };
    let want = match (k, acc, digit) {
        (0, Some(d), _) => fits(midi(b'a', 4, d)),
        (0, _, Some(d)) => fits(midi(b'a', 10 * d + 4, 0)),
        (0, ..) if c == '+' => Some(69),
        (0, ..) if c == '-' => None,
        (1, Some(d), _) => fits(midi(b'a', 4, d)),
        (1, _, Some(d)) => fits(midi(b'a', 40 + d, 0)),
        (1, ..) if c.is_whitespace() => Some(69),
        (2, Some(d), _) => fits(midi(b'a', 4, 1 + d)),
        (3, _, Some(d)) => fits(midi(b'a', d, 0)),
        _ => None,
    };
    check!(note == want);
}
/// numbers and lists of notes are played as they are
pub fn played() {
    let sys = Sys::new();
    let blocking = choice(2) == 1;
    let beats = any_num();
    let (v, want): (V, Option<Vec<u8>>) = match choice(8) {
        0 => { let x = any_int(); (n(x), if (x >= 0.0) & (x < 128.0) { Some(vec![x as u8]) } else { None }) }
        1 => { let x = any_int() * 0.25; let ok = (x >= 0.0) & (x < 128.0) & ((x as i64) as f64 == x); (n(x), if ok { Some(vec![x as u8]) } else { None }) }
        2 => { let x = [1e300, -1e300, 4294967356.0, 18446744073709551616.0, 9007199254740993.0][choice(5)]; (n(x), None) }
        3 => { let (s, m) = [("c4", Some(60)), (" Bb3 ", Some(58)), ("60", Some(60)), ("6.5", None), ("128", None), ("h4", None), ("", None), ("g9", Some(127)), ("g#9", None), ("c-1", Some(0)), ("cb-1", None)][choice(11)]; (t(s), m.map(|x| vec![x])) }
        4 => { let (x, y) = (any_int(), any_u8() as f64); (l(vec![n(x), t("f#2"), n(y)]), if (x >= 0.0) & (x < 128.0) & (y < 128.0) { Some(vec![x as u8, 42, y as u8]) } else { None }) }
        5 => (l(vec![]), Some(vec![])),
        6 => (V::B(any_bool()), None),
        _ => (l(vec![l(vec![n(60.0)])]), None),
    };
    gc(|mc| {
        let args = vec![("a", val(mc, &v)), ("b", nv(beats))];
        let mut r = start(mc, &main_role(&["a", "b"], vec![s(K::PlayNotes { notes: bvar("a"), beats: bvar("b"), blocking }), ret(num(7.0))]), &sys, Settings::default(), args);
        let end = r.to_end(mc, 50);
        cover!();
        let log = sys.log.borrow();
        match want {
            None => check!(matches!(end, End::Err(..)) && log.is_empty()),
            Some(w) => {
                check!(matches!(&end, End::Ok(x) if snap(x) == n(7.0)));
                if beats > 0.0 {
                    let Some(Ev::PlayNotes(x, b, bl)) = log.first() else { check!(false); return };
                    check!(log.len() == 1 && x.len() == w.len() && *bl == blocking && b.to_bits() == beats.to_bits());
                    for (x, w) in x.iter().zip(&w) { check!(x == w) }
                } else { check!(log.is_empty()) }
            }
        };
    });
}
/// a rest is a blocking play of nothing; beats must be a number
pub fn rests() {
    let sys = Sys::new();
    let (v, want) = match choice(4) { 0 => { let x = any_num(); (n(x), Some(x)) } 1 => (t("1.5"), Some(1.5)), 2 => (t("x"), None), _ => (l(vec![n(1.0)]), None) };
    let play = choice(2) == 1;
    gc(|mc| {
        let st = if play { s(K::PlayNotes { notes: bx(num(61.0)), beats: bvar("a"), blocking: false }) } else { s(K::Rest { beats: bvar("a") }) };
        let mut r = start(mc, &main_role(&["a"], vec![st, ret(num(7.0))]), &sys, Settings::default(), vec![("a", val(mc, &v))]);
        let end = r.to_end(mc, 50);
        cover!();
        let log = sys.log.borrow();
        match want {
            None => check!(matches!(end, End::Err(..)) && log.is_empty()),
            Some(w) => {
                check!(matches!(&end, End::Ok(x) if snap(x) == n(7.0)));
                if w > 0.0 {
                    let Some(Ev::PlayNotes(x, b, bl)) = log.first() else { check!(false); return };
                    check!(log.len() == 1 && *x == (if play { vec![61] } else { vec![] }) && *bl == !play && b.to_bits() == w.to_bits());
                } else { check!(log.is_empty()) }
            }
        };
    });
}
/// the number of a note, its names and its frequency
pub fn faces() {
    let (m, natural) = (any_u8(), choice(2) == 1);
    let note = Note::from_midi(m, natural);
    check!(note.is_some() == (m < 128));
    if let Some(note) = note { let (a, b) = note.get_midi(); check!(a == m && b == natural); }
    let m = [0u8, 11, 21, 57, 58, 59, 60, 61, 66, 69, 70, 80, 81, 126, 127][choice(15)];
    let note = Note::from_midi(m, natural).unwrap();
    let sharps = choice(2) == 1;
    let mut want = String::new();
    let names = if sharps { ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"] } else { ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"] };
    let _ = write!(want, "{}{}", names[m as usize % 12], m as i32 / 12 - 1);
    cover!();
    let name = note.get_name(sharps);
    check!(name.as_str() == want.as_str());
    check!(got(Note::from_name(&name)) == Some(m));
    // A in every octave, twelve equal steps
    let step = 1.0594630943592953f64;
    let mut hz = 440.0;
    for _ in 69..m { hz *= step }
    for _ in m..69 { hz /= step }
    let f = note.get_frequency().get();
    check!((f - hz).abs() < hz * 1e-9);
}
harnesses!(names, strangers, played, rests, faces);
