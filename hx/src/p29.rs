//! P29 handlers of requests and commands, results that come later, and idling
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::boxed::Box; use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use core::cell::{Cell, RefCell};
use netsblox_vm::project::*;
use netsblox_vm::vecmap::VecMap;

type Cf = Config<Cu, Sys>;
type Log = Rc<RefCell<Vec<(usize, u8, V)>>>;
fn seen_request(r: &Request<'_, Cu, Sys>) -> V {
    match r {
        Request::Input { prompt } => l(prompt.iter().map(snap).collect()),
        Request::Syscall { name, args } => l(vec![t(name), l(args.iter().map(snap).collect())]),
        Request::Rpc { host, service, rpc, args } => l(vec![t(host.as_ref().map(|x| x.as_str()).unwrap_or("-")), t(service), t(rpc), l(args.iter().map(|(k, v)| l(vec![t(k), snap(v)])).collect())]),
        Request::Property { prop } => V::Nat(*prop as u8),
        Request::UnknownBlock { name, args } => l(vec![t("?"), t(name), l(args.iter().map(snap).collect())]),
    }
}
fn seen_command(c: &Command<'_, '_, Cu, Sys>) -> V {
    match c {
        Command::Print { value, .. } => l(value.iter().map(snap).collect()),
        Command::SetProperty { prop, value } => l(vec![t("="), V::Nat(*prop as u8), snap(value)]),
        Command::ChangeProperty { prop, delta } => l(vec![t("+"), V::Nat(*prop as u8), snap(delta)]),
        Command::PlayNotes { notes, beats, blocking } => l(vec![n(notes.len() as f64), n(beats.get()), V::B(*blocking)]),
        Command::GotoXY { x, y } => l(vec![t("g"), n(x.get()), n(y.get())]),
        Command::PointTowardsXY { x, y } => l(vec![t("p"), n(x.get()), n(y.get())]),
        Command::Forward { distance } => l(vec![t("f"), n(distance.get())]),
        Command::PlaySound { sound, blocking } => l(vec![t(&sound.name), V::B(*blocking)]),
        Command::SetCostume => t("c"), Command::StopSounds => t("s"), Command::ClearEffects => t("e"), Command::ClearDrawings => t("d"),
        Command::GotoEntity { target } => l(vec![t("ge"), t(&target.name)]),
        Command::PointTowardsEntity { target } => l(vec![t("pe"), t(&target.name)]),
    }
}
/// what handler `id` does: 1 handles, 2 declines, 3 handles only the first kind
fn config(id: usize, req: usize, com: usize, log: &Log) -> Cf {
    let mut c = Cf::default();
    if req > 0 { let log = log.clone(); c.request = Some(Rc::new(move |_, key, request, _| {
        let first = matches!(request, Request::Input { .. });
        log.borrow_mut().push((id, 0, seen_request(&request)));
        if req == 1 || (req == 3 && first) { key.complete(Ok(Inter(SimpleValue::Number(Number::new(id as f64).unwrap())))); RequestStatus::Handled } else { RequestStatus::UseDefault { key, request } }
    })) }
    if com > 0 { let log = log.clone(); c.command = Some(Rc::new(move |_, key, command, _| {
        let first = matches!(command, Command::Print { .. });
        log.borrow_mut().push((id, 1, seen_command(&command)));
        if com == 1 || (com == 3 && first) { let r: Result<(), netsblox_vm::compact_str::CompactString> = if id == 1 { Err("no".into()) } else { Ok(()) }; key.complete(r); CommandStatus::Handled } else { CommandStatus::UseDefault { key, command } }
    })) }
    c
}
fn proc_<'gc>(mc: &Mutation<'gc>) -> Run<'gc> { start(mc, &main_role(&[], vec![ret(num(1.0))]), &Sys::new(), Settings::default(), vec![]) }
fn feature_name(f: &Feature) -> V {
    match f {
        Feature::Input => t("input"), Feature::Print => t("print"), Feature::Syscall { name } => l(vec![t("syscall"), t(name)]), Feature::Rpc { service, rpc } => l(vec![t("rpc"), t(service), t(rpc)]),
        Feature::GetProperty { prop } => l(vec![t("get"), V::Nat(*prop as u8)]), Feature::SetProperty { prop } => l(vec![t("set"), V::Nat(*prop as u8)]), Feature::ChangeProperty { prop } => l(vec![t("change"), V::Nat(*prop as u8)]),
        Feature::SetCostume => t("costume"), Feature::PlaySound { blocking } => l(vec![t("sound"), V::B(*blocking)]), Feature::PlayNotes { blocking } => l(vec![t("notes"), V::B(*blocking)]), Feature::StopSounds => t("stop"),
        Feature::ClearEffects => t("effects"), Feature::ClearDrawings => t("drawings"), Feature::GotoXY => t("goto"), Feature::GotoEntity => t("goto entity"), Feature::PointTowardsXY => t("point"), Feature::PointTowardsEntity => t("point entity"), Feature::Forward => t("forward"),
        Feature::UnknownBlock { name } => l(vec![t("block"), t(name)]),
        _ => V::Deep,
    }
}
const PROPS: [Property; 4] = [Property::XPos, Property::PenColor, Property::Negative, Property::Tempo];
/// requests go to the first handler that takes them, unchanged; if none does they come back
pub fn requests() {
    let h = [choice(4), choice(4), choice(3)];
    let right = choice(2) == 1;
    let kind = choice(5);
    let log: Log = Default::default();
    let c: Vec<Cf> = (0..3).map(|i| config(i, h[i], 3 - i, &log)).collect();
    let all = if right { c[0].fallback(&c[1].fallback(&c[2])) } else { c[0].fallback(&c[1]).fallback(&c[2]) };
    let sink: Sink = Rc::new(RefCell::new(None));
    gc(|mc| {
        let mut run = proc_(mc);
        let x = nv(any_num());
        let p = PROPS[choice(4)];
        let make = || match kind {
            0 => Request::Input { prompt: Some(x.clone()) },
            1 => Request::Syscall { name: "nä".into(), args: vec![x.clone(), tv("a")] },
            2 => Request::Rpc { host: if right { Some("h".into()) } else { None }, service: "S".into(), rpc: "r".into(), args: { let mut m = VecMap::default(); m.insert("k".into(), x.clone()); m } },
            3 => Request::Property { prop: p },
            _ => Request::UnknownBlock { name: "b".into(), args: vec![x.clone()] },
        };
        let r = make();
        let saw = seen_request(&r);
        check!(feature_name(&r.feature()) == match kind { 0 => t("input"), 1 => l(vec![t("syscall"), t("nä")]), 2 => l(vec![t("rpc"), t("S"), t("r")]), 3 => l(vec![t("get"), V::Nat(p as u8)]), _ => l(vec![t("block"), t("b")]) });
        check!(all.request.is_some() == (h[0] + h[1] + h[2] > 0));
        let mut want = vec![];
        let mut by = None;
        for i in 0..3 { if h[i] > 0 && by.is_none() { want.push(i); if h[i] == 1 || (h[i] == 3 && kind == 0) { by = Some(i) } } }
        cover!();
        if let Some(f) = &all.request {
            match f(mc, Key_(7, Some(sink.clone())), r, &mut run.p) {
                RequestStatus::Handled => { check!(by.is_some()); check!(*sink.borrow() == Some(Done::Value(n(by.unwrap_or(9) as f64)))); }
                RequestStatus::UseDefault { key, request } => { check!(by.is_none() && sink.borrow().is_none() && key.0 == 7); check!(veq(&seen_request(&request), &saw)); }
            }
        }
        let log = log.borrow();
        check!(log.len() == want.len());
        for (a, b) in log.iter().zip(&want) { check!(a.0 == *b && a.1 == 0 && veq(&a.2, &saw)) }
    });
}
pub fn commands() {
    let h = [choice(4), choice(4), choice(3)];
    let right = choice(2) == 1;
    let kind = choice(14);
    let log: Log = Default::default();
    let c: Vec<Cf> = (0..3).map(|i| config(i, 3 - i, h[i], &log)).collect();
    let all = if right { c[0].fallback(&c[1].fallback(&c[2])) } else { c[0].fallback(&c[1]).fallback(&c[2]) };
    let sink: Sink = Rc::new(RefCell::new(None));
    gc(|mc| {
        let mut run = proc_(mc);
        let x = Number::new(any_num()).unwrap();
        let p = PROPS[kind % 4];
        let b = right;
        let target = run.p.get_call_stack().last().unwrap().entity;
        let target = target.borrow();
        let (r, f) = match kind {
            0 => (Command::Print { style: PrintStyle::Say, value: Some(x.into()) }, t("print")),
            1 => (Command::SetProperty { prop: p, value: x.into() }, l(vec![t("set"), V::Nat(p as u8)])),
            2 => (Command::ChangeProperty { prop: p, delta: x.into() }, l(vec![t("change"), V::Nat(p as u8)])),
            3 => (Command::ClearEffects, t("effects")),
            4 => (Command::ClearDrawings, t("drawings")),
            5 => (Command::SetCostume, t("costume")),
            6 => (Command::PlaySound { sound: Rc::new(Audio { content: vec![], name: "s".into() }), blocking: b }, l(vec![t("sound"), V::B(b)])),
            7 => (Command::PlayNotes { notes: vec![Note::from_midi(60, b).unwrap()], beats: x, blocking: b }, l(vec![t("notes"), V::B(b)])),
            8 => (Command::StopSounds, t("stop")),
            9 => (Command::GotoXY { x, y: Number::new(2.0).unwrap() }, t("goto")),
            10 => (Command::PointTowardsXY { x: Number::new(2.0).unwrap(), y: x }, t("point")),
            11 => (Command::GotoEntity { target: &*target }, t("goto entity")),
            12 => (Command::PointTowardsEntity { target: &*target }, t("point entity")),
            _ => (Command::Forward { distance: x }, t("forward")),
        };
        let saw = seen_command(&r);
        check!(feature_name(&r.feature()) == f);
        check!(all.command.is_some() == (h[0] + h[1] + h[2] > 0));
        let mut want = vec![];
        let mut by = None;
        for i in 0..3 { if h[i] > 0 && by.is_none() { want.push(i); if h[i] == 1 || (h[i] == 3 && kind == 0) { by = Some(i) } } }
        cover!();
        if let Some(f) = &all.command {
            match f(mc, Key_(7, Some(sink.clone())), r, &mut run.p) {
                CommandStatus::Handled => { check!(by.is_some()); check!(*sink.borrow() == Some(if by == Some(1) { Done::Err } else { Done::Ok })); }
                CommandStatus::UseDefault { key, command } => { check!(by.is_none() && sink.borrow().is_none() && key.0 == 7); check!(veq(&seen_command(&command), &saw)); }
            }
        }
        let log = log.borrow();
        check!(log.len() == want.len());
        for (a, b) in log.iter().zip(&want) { check!(a.0 == *b && a.1 == 1 && veq(&a.2, &saw)) }
    });
}
/// a result completes once and is handed out once
pub fn results() {
    let mut r: AsyncResult<u64> = AsyncResult::new();
    let (mut value, mut taken) = (None, false);
    for _ in 0..(if cfg!(feature = "deep") { 7 } else { 5 }) {
        if choice(2) == 0 {
            let x = any_u64();
            let got = r.complete(x);
            if value.is_none() { value = Some(x); check!(got == Ok(())) } else { check!(got == Err(x)) }
        } else {
            let got = r.poll();
            match (value, taken) {
                (None, _) => check!(matches!(got, AsyncResult::Pending)),
                (Some(x), false) => { taken = true; if let AsyncResult::Completed(y) = got { check!(x == y) } else { check!(false) } }
                _ => check!(matches!(got, AsyncResult::Consumed)),
            }
        }
    }
    cover!();
}
/// the idle action fires after so many idle steps in a row
pub fn idling() {
    let fired = Rc::new(Cell::new(0usize));
    let f = fired.clone();
    let limit = choice(4);
    let mut idle = IdleAction::new(limit, Box::new(move || f.set(f.get() + 1)));
    let (mut row, mut want) = (0, 0);
    gc(|mc| {
        for _ in 0..(if cfg!(feature = "deep") { 7 } else { 5 }) {
            let k = choice(6);
            if k == 5 { idle.trigger(); row = 0; want += 1; }
            else {
                let step: ProjectStep<'_, Cu, Sys> = match k { 0 => ProjectStep::Idle, 1 => ProjectStep::Yield, 2 => ProjectStep::Pause, 3 => ProjectStep::Normal, _ => ProjectStep::ProcessTerminated { result: nv(1.0), proc: proc_(mc).p } };
                idle.consume(&step);
                if k < 3 { row += 1; if row >= limit { row = 0; want += 1 } } else { row = 0 }
            }
            check!(fired.get() == want);
        }
        cover!();
    });
}
harnesses!(requests, commands, results, idling);
