//! P30 watched variables and pauses
use crate::b::*; use crate::lang::*; use crate::rt::*; use crate::sys::*;
use alloc::rc::Rc; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::project::*;

#[derive(Clone)]
enum W { Decl(&'static str), Set(&'static str, f64), Inc(&'static str, f64), Show(&'static str), Hide(&'static str), Pause, Cap(Vec<W>), Fun, On(Vec<W>) }
fn block(v: &[W], locals_: &mut Vec<&'static str>) -> Vec<Stmt> {
    v.iter().map(|w| match w {
        W::Decl(k) => { if !locals_.contains(k) { locals_.push(k) } locals(&[k]) }
        W::Set(k, x) => assign(k, num(*x)),
        W::Inc(k, x) => inc(k, num(*x)),
        W::Show(k) => s(K::ShowVar { var: lv(k) }),
        W::Hide(k) => s(K::HideVar { var: lv(k) }),
        W::Pause => s(K::Pause),
        W::Cap(b) => { let caps = locals_.clone(); s(K::CallClosure { new_entity: None, closure: bx(clos(&[], &caps, block(b, &mut locals_.clone()))), args: vec![] }) }
        W::Fun => calls("h", vec![num(9.0)]),
        W::On(b) => { let caps = locals_.clone(); s(K::CallClosure { new_entity: Some(bx(ent("B"))), closure: bx(clos(&[], &caps, block(b, &mut locals_.clone()))), args: vec![] }) }
    }).collect()
}
/// what is to be seen: at each stop, what is asked for and what the variables watched so far hold
#[derive(Default)]
struct Model { cells: Vec<f64>, watched: Vec<usize>, stops: Vec<(Option<(bool, &'static str, &'static str)>, Vec<f64>)>, failed: bool, ends: Vec<f64> }
type Frame = Vec<(&'static str, usize)>;
impl Model {
    fn cell(&mut self, x: f64) -> usize { self.cells.push(x); self.cells.len() - 1 }
    fn find(&self, f: &Frame, ent: usize, k: &str) -> Option<usize> { f.iter().rev().find(|x| x.0 == k).map(|x| x.1).or(match k { "f" => Some(ent), "g" => Some(2), _ => None }) }
    fn stop(&mut self, w: Option<(bool, &'static str, &'static str)>) { let now = self.watched.iter().map(|c| self.cells[*c]).collect(); self.stops.push((w, now)); }
    fn run(&mut self, v: &[W], f: &mut Frame, ent: usize, fun: &[W]) {
        for w in v {
            if self.failed { return }
            match w {
                W::Decl(k) => { let c = self.cell(0.0); match f.iter().position(|x| x.0 == *k) { Some(i) => f[i].1 = c, None => f.push((k, c)) } }
                W::Set(k, x) | W::Inc(k, x) => match self.find(f, ent, k) { Some(c) => { let add = matches!(w, W::Inc(..)); self.cells[c] = norm(if add { self.cells[c] + x } else { *x }) } None => self.failed = true },
                W::Show(k) | W::Hide(k) => match self.find(f, ent, k) { Some(c) => { self.watched.push(c); self.stop(Some((matches!(w, W::Show(_)), k, ["A", "B"][ent]))) } None => self.failed = true },
                W::Pause => self.stop(None),
                W::Cap(b) => self.run(b, &mut f.clone(), ent, fun),
                W::On(b) => self.run(b, &mut f.clone(), 1, fun),
                W::Fun => { let c = self.cell(9.0); self.run(fun, &mut vec![("l", c)], ent, &[]) }
            }
        }
    }
}
fn op(k: usize, x: f64) -> W {
    match k { 0 => W::Set("l", x), 1 => W::Show("l"), 2 => W::Inc("g", x), 3 => W::Hide("f"), 4 => W::Decl("g"), 5 => W::Show("g"), 6 => W::Pause, 7 => W::Inc("f", 1.0), 8 => W::Decl("l"), _ => W::Fun }
}
const OPS: usize = 10;
const LEN: usize = if cfg!(feature = "deep") { 4 } else { 3 };
/// each watcher is asked for when its block runs and shows the variable that its script sees there; a pause stops the project in place
pub fn watching() {
    let ctx = choice(4);
    let first = choice(OPS);
    let x = any_u8() as f64;
    let mid: Vec<W> = (0..LEN).map(|i| op(if i == 0 { first } else { choice(OPS) }, x)).collect();
    let fun = vec![W::Show("l"), W::Set("l", 5.0), W::Inc("f", 2.0), W::Hide("l")];
    let mut prog = vec![W::Inc("g", 1.0)];
    if ctx != 3 { prog.extend([W::Decl("l"), W::Set("l", 3.0), W::Show("l")]) }
    match ctx { 0 => prog.extend(mid), 1 => prog.push(W::Cap(mid)), 2 => prog.push(W::On(mid)), _ => prog.push(W::On(vec![W::Cap(mid)])) }
    prog.extend([W::Show("f"), W::Inc("g", 1.0), W::Pause, W::Set("f", 4.0), W::Hide("g"), W::Inc("l", 1.0), W::Show("l")]);
    let mut m = Model { cells: vec![10.0, 20.0, 30.0], ..Default::default() };
    m.run(&prog, &mut vec![], 0, &fun);
    let mut r = role(vec![func("h", &["l"], block(&fun, &mut vec!["l"]))], vec![]);
    r.globals = vec![vi("g", AV::Number(30.0)), vi("turns", AV::Number(0.0))];
    let mut a = entity("A");
    a.fields = vec![vi("f", AV::Number(10.0))];
    a.scripts = vec![script(HatKind::OnFlag, block(&prog, &mut vec![])), script(HatKind::OnFlag, vec![inc("turns", num(1.0))])];
    let mut b = entity("B");
    b.fields = vec![vi("f", AV::Number(20.0))];
    r.entities = vec![a, b];
    gc(|mc| {
        let (code, init, _, _) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => panic!("compile") };
        let mut p: Project<Cu, Sys> = Project::from_init(mc, &init, Rc::new(code), Settings::default(), Sys::new());
        p.input(mc, Input::Start);
        let g = p.get_global_context();
        let global = |k: &str| match snap(&*g.borrow().globals.lookup(k).unwrap().get()) { V::N(x) => x, _ => -1.0 };
        let mut ws: Vec<Watcher<'_, Cu, Sys>> = vec![];
        let (mut at, mut ended) = (0, false);
        for _ in 0..400 {
            let w = match p.step(mc) {
                ProjectStep::Idle => break,
                ProjectStep::Error { .. } => { check!(m.failed && at == m.stops.len() && !ended); ended = true; continue }
                ProjectStep::ProcessTerminated { .. } => { if global("turns") == 0.0 { check!(!m.failed && at == m.stops.len()); ended = true } continue }
                ProjectStep::Watcher { create, watcher } => Some((create, watcher)),
                ProjectStep::Pause => None,
                _ => continue,
            };
            check!(at < m.stops.len() && !ended && global("turns") == 0.0);
            let (want, vals) = &m.stops[at];
            at += 1;
            check!(w.is_some() == want.is_some());
            if let (Some((create, watcher)), Some((c, k, en))) = (w, want) {
                check!(create == *c && watcher.name.as_str() == *k);
                match watcher.entity.upgrade(mc) { Some(x) => check!(x.borrow().name.as_str() == *en), None => check!(false) }
                ws.push(watcher);
            }
            check!(ws.len() == vals.len());
            for (w, v) in ws.iter().zip(vals) { match w.value.upgrade(mc) { Some(x) => check!(veq(&snap(&x.borrow()), &n(*v))), None => check!(false) } }
        }
        cover!();
        check!(ended && at == m.stops.len());
        check!(global("turns") == 1.0);
        check!(veq(&n(global("g")), &n(m.cells[2])));
        // watchers of one variable share it, those of others do not
        for i in 0..ws.len() { for j in 0..i {
            let (Some(a), Some(b)) = (ws[i].value.upgrade(mc), ws[j].value.upgrade(mc)) else { check!(false); return };
            check!(Gc::ptr_eq(a, b) == (m.watched[i] == m.watched[j]));
        } }
    });
}
/// the same at the level of one process, which goes on where it stopped
pub fn alone() {
    let x = any_num();
    let (create, paused) = (choice(2) == 1, choice(2) == 1);
    let unknown = choice(2) == 1;
    gc(|mc| {
        let name = if unknown { "nope" } else { "a" };
        let show = if create { s(K::ShowVar { var: lv(name) }) } else { s(K::HideVar { var: lv(name) }) };
        let mut v = vec![s(K::Pause), show, assign("a", txt("new")), ret(var("a"))];
        if !paused { v.remove(0); }
        let mut r = start(mc, &main_role(&["a"], v), &Sys::new(), Settings::default(), vec![("a", nv(x))]);
        let (mut pauses, mut seen, mut out) = (0, None, None);
        for _ in 0..40 {
            match r.p.step(mc) {
                Ok(ProcessStep::Pause) => { check!(seen.is_none()); pauses += 1 }
                Ok(ProcessStep::Watcher { create: c, watcher }) => { check!(seen.is_none() && c == create && watcher.name.as_str() == name); match watcher.value.upgrade(mc) { Some(v) => { check!(veq(&snap(&v.borrow()), &n(x))); seen = Some(v) } None => check!(false) } }
                Ok(ProcessStep::Normal) => check!(r.p.is_running()),
                Ok(ProcessStep::Terminate { result }) => { out = Some(Ok(snap(&result))); break }
                Err(e) => { out = Some(Err(matches!(e.cause, ErrorCause::UndefinedVariable { .. }))); break }
                _ => check!(false),
            };
        }
        cover!();
        check!(pauses == paused as usize && seen.is_some() == !unknown);
        if unknown { check!(out == Some(Err(true))) } else {
            check!(out == Some(Ok(t("new"))));
            if let Some(v) = seen { check!(snap(&v.borrow()) == t("new")) }
        }
    });
}
harnesses!(watching, alone);
