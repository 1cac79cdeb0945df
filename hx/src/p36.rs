//! P36 the extension for the browser
use crate::b::*; use crate::rt::*;
use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use core::time::Duration;
use netsblox_vm::template::{ExtensionArgs, SyscallMenu};

/// a menu as the browser gets it
#[derive(Debug, PartialEq, Clone)]
enum M { Entry(String, String), Sub(String, Vec<M>) }
/// reads what the browser reads: string literals, menus, lists of strings, numbers
struct R<'a> { s: &'a [u8], i: usize }
impl<'a> R<'a> {
    fn at(text: &'a str, after: &str) -> R<'a> {
        let (s, p) = (text.as_bytes(), after.as_bytes());
        let mut i = 0;
        // the fixed part of the text is scanned byte by byte; what varies comes after these marks
        while i + p.len() <= s.len() && &s[i..i + p.len()] != p { i += 1 }
        R { s, i: i + p.len() }
    }
    fn peek(&self) -> u8 { if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { let r = self.peek() == c; if r { self.i += 1 } r }
    fn blank(&mut self) { while self.peek() == b' ' || self.peek() == b'\n' { self.i += 1 } }
    fn text(&mut self) -> Option<String> {
        if !self.eat(b'"') { return None }
        let mut r = vec![];
        loop {
            let c = self.peek();
            self.i += 1;
            if c == b'"' { return String::from_utf8(r).ok() }
            if c == b'\n' || c == b'\r' || self.i >= self.s.len() { return None }
            if c != b'\\' { r.push(c); continue }
            let c = self.peek();
            self.i += 1;
            match c {
                b'n' => r.push(b'\n'), b'r' => r.push(b'\r'), b't' => r.push(b'\t'),
                b'0' => { if self.peek().is_ascii_digit() { return None } r.push(0) }
                b'u' => {
                    if !self.eat(b'{') { return None }
                    let mut x = 0u32;
                    loop { let c = self.peek(); self.i += 1; match c { b'}' => break, b'0'..=b'9' => x = x * 16 + (c - b'0') as u32, b'a'..=b'f' => x = x * 16 + (c - b'a') as u32 + 10, _ => return None } }
                    let mut b = [0; 4];
                    r.extend_from_slice(char::from_u32(x)?.encode_utf8(&mut b).as_bytes());
                }
                b'\\' | b'"' | b'\'' => r.push(c),
                _ => return None,
            }
        }
    }
    fn menu(&mut self) -> Option<Vec<M>> {
        if !self.eat(b'{') { return None }
        let mut r = vec![];
        loop {
            self.blank();
            if self.eat(b'}') { return Some(r) }
            let label = self.text()?;
            self.blank();
            if !self.eat(b':') { return None }
            self.blank();
            r.push(if self.peek() == b'{' { M::Sub(label, self.menu()?) } else { M::Entry(label, self.text()?) });
            self.blank();
            if !self.eat(b',') && self.peek() != b'}' { return None }
        }
    }
    fn list(&mut self) -> Option<Vec<String>> {
        if !self.eat(b'[') { return None }
        let mut r = vec![];
        loop {
            self.blank();
            if self.eat(b']') { return Some(r) }
            r.push(self.text()?);
            self.blank();
            if !self.eat(b',') && self.peek() != b']' { return None }
        }
    }
    fn number(&mut self) -> Option<u64> {
        let mut r = None;
        while self.peek().is_ascii_digit() { r = Some(r.unwrap_or(0) * 10 + (self.peek() - b'0') as u64); self.i += 1 }
        r
    }
}
fn real(m: &M) -> SyscallMenu {
    match m {
        M::Entry(l, v) if l == v => SyscallMenu::simple_entry(l.clone()),
        M::Entry(label, value) => SyscallMenu::Entry { label: label.clone(), value: value.clone() },
        M::Sub(label, x) => SyscallMenu::Submenu { label: label.clone(), content: x.iter().map(real).collect() },
    }
}
fn render(menu: &[M], omitted: &[&str], ms: u64, server: &str) -> String {
    let syscalls: Vec<_> = menu.iter().map(real).collect();
    ExtensionArgs { server, syscalls: &syscalls, omitted_elements: omitted, pull_interval: Duration::from_millis(ms) }.render()
}
/// between these the menu stands
fn menu_of(text: &str) -> Option<Vec<M>> {
    // the last menu of the palette's block: everything before is fixed text
    let mut r = R::at(text, "'syscall',");
    while r.i < r.s.len() && r.peek() != b'{' { r.i += 1 }
    r.menu()
}
fn en(a: &str, b: &str) -> M { M::Entry(a.into(), b.into()) }
fn sub(a: &str, x: Vec<M>) -> M { M::Sub(a.into(), x) }
/// a label with an arbitrary printable character or one of the others
fn label() -> &'static str {
    let p = choice(3);
    let (mut x, odd): (String, _) = (["", "a\"", "\\"][p].into(), choice(7));
    x.push(match odd { 0 => { let c = any_u8(); assume(c >= 32 && c < 127); c as char } k => ['\n', '\r', '\t', '\x1b', '\x7f', '\0'][k - 1] });
    x.push_str(["", "x", "'{"][p]);
    keep(x)
}
/// menus of every shape reach the browser as they are
pub fn menus() {
    let x = label();
    let m = match choice(8) {
        0 => vec![],
        1 => vec![en(x, x)],
        2 => vec![en("first", x), en(x, "second")],
        3 => vec![sub(x, vec![])],
        4 => vec![sub("s", vec![en("a", x)]), en("b", "c")],
        5 => vec![en("a", "a"), sub("s", vec![sub(x, vec![en("d", "e"), en("f", "g")]), sub("t", vec![])]), en("h", "i")],
        6 => vec![sub("s", vec![en("same", "one")]), sub("t", vec![en("same", "two")]), en("same", x)],
        _ => vec![en("e\u{301}\u{e4}\u{1f600}", "\u{200b}\u{ad}"), sub("\r\n\t", vec![en("\u{7f}\u{1}", x)])],
    };
    let text = render(&m, &[], 250, "http://localhost");
    let got = menu_of(&text);
    cover!();
    check!(got == Some(m));
}
/// so do the other settings
pub fn settings() {
    let x = label();
    let omitted: Vec<&str> = match choice(5) { 0 => vec![], 4 => vec!["", x], 1 => vec![x], 2 => vec!["replay", x], _ => vec!["a", "b", "c"] };
    let ms = [0, 1, 250, 999, 1000, 86400000][choice(6)];
    let server = ["http://localhost:8286", "https://vm.example.org/a?b=c", ""][choice(3)];
    let text = render(&[en("one", "two")], &omitted, ms, server);
    cover!();
    let mut r = R::at(&text, "const omittedElements = ");
    let got = r.list();
    check!(got.map(|v| v.len() == omitted.len() && v.iter().zip(&omitted).all(|(a, b)| a == b)) == Some(true));
    check!(r.eat(b';'));
    let mut r = R::at(&text, "const OUTPUT_UPDATE_INTERVAL_MS = ");
    check!(r.number() == Some(ms) && r.eat(b';'));
    let r = R::at(&text, "const SERVER = '");
    let rest = &text.as_bytes()[r.i..];
    check!(rest.len() > server.len() && &rest[..server.len()] == server.as_bytes() && rest[server.len()] == b'\'');
    check!(menu_of(&text) == Some(vec![en("one", "two")]));
}
harnesses!(menus, settings);
