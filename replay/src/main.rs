//! Runs harness entries natively on recorded inputs. Each line of stdin is `ENTRY INPUT...`; each answer is
//! `OUTCOME \t OBS` on stdout.
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

struct Signal(String);
#[derive(Default)]
struct St { inputs: std::collections::VecDeque<String>, obs: Vec<(u64, u64)>, covers: Vec<u32>, panic: Option<String> }
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));
static TICK: AtomicU64 = AtomicU64::new(0);

fn sig(s: &str) -> ! { resume_unwind(Box::new(Signal(s.into()))) }
fn next(kind: char) -> String {
    let x = ST.with(|s| s.borrow_mut().inputs.pop_front());
    match x { Some(x) if x.starts_with(kind) => x[1..].into(), _ => sig("desync") }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sx_any(p: *mut u8, n: usize) {
    // values above 16 bytes are recorded byte by byte
    let mut got = 0;
    while got < n {
        let x = next('a');
        let b: Vec<u8> = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect();
        if got + b.len() > n { sig("desync") }
        for v in b { *p.add(got) = v; got += 1; }
    }
}
#[no_mangle]
pub extern "C-unwind" fn sx_choice(n: u32) -> u32 { if n <= 1 { return 0 } let x: u32 = next('c').parse().unwrap(); if x >= n { sig("desync") } x }
#[no_mangle]
pub extern "C-unwind" fn sx_assume(b: bool) { if !b { sig("stop") } }
#[no_mangle]
pub extern "C-unwind" fn sx_check(b: bool, id: u32) { if !b { sig(&format!("check {id}")) } }
#[no_mangle]
pub extern "C-unwind" fn sx_cover(id: u32) { ST.with(|s| s.borrow_mut().covers.push(id)) }
#[no_mangle]
pub extern "C-unwind" fn sx_obs(k: u64, v: u64) { ST.with(|s| s.borrow_mut().obs.push((k, v))) }
#[no_mangle]
pub extern "C-unwind" fn sx_stop() -> ! { sig("stop") }
#[no_mangle]
pub extern "C-unwind" fn sx_done() { }

fn run() {
    let all = hx::all();
    let find = |n: &str| all.iter().flat_map(|x| x.1.iter()).find(|x| x.0 == n).map(|x| x.1);
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("REPLAY_SHOW").is_ok() { eprintln!("{i}"); }
        ST.with(|s| if let Ok(mut s) = s.try_borrow_mut() { if s.panic.is_none() { s.panic = Some(l) } });
    }));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let name = match it.next() { Some(n) => n, None => continue };
        let f = find(name).unwrap_or_else(|| panic!("no entry {name}"));
        ST.with(|s| *s.borrow_mut() = St { inputs: it.map(|x| x.to_string()).collect(), ..St::default() });
        TICK.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        TICK.fetch_add(1, Ordering::SeqCst);
        let st = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
        let o = match r {
            Ok(()) => if st.inputs.is_empty() { "ok".to_string() } else { "desync".to_string() },
            Err(e) => match e.downcast_ref::<Signal>() { Some(s) => s.0.clone(), None => format!("panic {}", st.panic.unwrap_or_default()) },
        };
        let obs: Vec<String> = st.obs.iter().map(|(a, b)| format!("{a}={b}")).collect();
        let mut w = out.lock();
        writeln!(w, "{o}\t{}", obs.join(" ")).unwrap();
        w.flush().unwrap();
    }
    std::process::exit(0);
}
fn main() {
    let limit: u64 = std::env::var("REPLAY_LIMIT_S").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap();
    let mut last = (0, 0);
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let t = TICK.load(Ordering::SeqCst);
        if t == last.0 { last.1 += 1 } else { last = (t, 0) }
        // odd: an entry is running
        if t % 2 == 1 && last.1 > limit * 2 { println!("hang\t"); std::process::exit(0); }
    }
}
