//! P38 the standard system and the network (src/std_system.rs, compiled into this crate with stand-ins for threads, connections and requests: sim.rs)
use crate::b::*; use crate::lang::{ent, say}; use crate::rt::*; use crate::sim::*; use crate::sys::{Nat, V, n, t};
use crate::std_system::StdSystem;
use crate::std_util::{AsyncKey, Clock};
use alloc::format; use alloc::rc::Rc; use alloc::string::String; use alloc::sync::Arc; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::json::{json, serde_json, Json};
use netsblox_vm::real_time::{time::Duration, OffsetDateTime, UtcOffset};
use netsblox_vm::vecmap::VecMap;
use tokio_tungstenite::tungstenite::Message;

pub struct C2;
type S2 = StdSystem<C2>;
pub struct E2;
impl<'gc, 'a> From<EntityKind<'gc, 'a, C2, S2>> for E2 { fn from(_: EntityKind<'gc, 'a, C2, S2>) -> E2 { E2 } }
pub struct P2;
impl<'gc, 'a> From<ProcessKind<'gc, 'a, C2, S2>> for P2 { fn from(_: ProcessKind<'gc, 'a, C2, S2>) -> P2 { P2 } }
impl Unwindable for P2 { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct I2(SimpleValue);
impl From<SimpleValue> for I2 { fn from(x: SimpleValue) -> I2 { I2(x) } }
// the harness is single threaded; the bound is only there for async systems
unsafe impl Send for I2 {}
impl CustomTypes<S2> for C2 {
    type NativeValue = Nat; type Intermediate = I2; type EntityState = E2; type ProcessState = P2;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: I2) -> Value<'gc, C2, S2> { Value::from_simple(mc, v.0) }
}
fn is(status: u16, kind: Option<&[u8]>, body: &[u8]) -> Answer { Answer::Is { status, kind: kind.map(|x| x.to_vec()), body: body.to_vec(), cut: false } }
/// what the server says when the system starts
fn server(h: &Http) -> Option<Answer> {
    let j = Some(&b"application/json"[..]);
    if h.url.ends_with("/configuration") { Some(is(200, j, br#"{"servicesHosts":[{"url":"https://services.example/s"},{"url":"https://other.example"}],"x":1}"#)) }
    else if h.url.ends_with("/projects/") { Some(is(200, j, br#"{"id":"pid","roles":{"r1":{"name":"role one"}}}"#)) }
    else if h.url.ends_with("/state") { Some(is(200, None, b"")) }
    else { None }
}
fn base() -> OffsetDateTime { OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap() }
/// a system that has just started
fn system(config: Config<C2, S2>) -> S2 {
    reset();
    world().times = vec![base()];
    world().server = Some(server);
    block_on(S2::new_async("https://net.example".into(), Some("my proj"), config, Arc::new(Clock::new(UtcOffset::UTC, None))))
}
fn parsed(x: &str) -> Json { serde_json::from_str(x).unwrap_or(Json::Null) }
fn printable() -> char { let c = any_u8(); assume((c >= 0x20) & (c < 0x7f)); c as char }

/// the system introduces itself to the server as one client with one address
pub fn starting() {
    let secure = choice(3);
    reset();
    world().times = vec![base()];
    world().server = Some(server);
    let url = ["https://net.example", "http://net.example:80", "net.example"][secure];
    let named = choice(2) == 1;
    let s = block_on(S2::new_async(url.into(), if named { Some("my proj") } else { None }, Config::default(), Arc::new(Clock::new(UtcOffset::UTC, None))));
    let project = if named { "my proj" } else { "untitled" };
    let id = s.get_public_id();
    cover!();
    check!(id.starts_with(project) && id[project.len()..].starts_with('@') && id.ends_with("#vm"));
    let client = &id[project.len() + 1..id.len() - 3];
    check!(world().connected.len() == 1 && world().connected[0] == format!("{}/network/{}/connect", ["wss://net.example", "ws://net.example:80", "wss://net.example"][secure], client));
    check!(world().said.len() == 1 && parsed(&world().said[0]) == json!({ "type": "set-uuid", "clientId": client }));
    let at = |u: &str| world().http.iter().find(|x| x.url == format!("{}{}", url, u)).and_then(|x| x.body.clone());
    check!(at("/projects/") == Some(json!({ "clientId": client, "name": project })));
    check!(at(&format!("/network/{}/state", client)) == Some(json!({ "state": { "external": { "address": project, "appId": "vm" } } })));
}
const SENT: usize = if cfg!(feature = "deep") { 3 } else { 2 };
/// what is sent goes out, each as one message, in the order it was sent
pub fn sending() {
    let s = system(Config::default());
    let id = s.get_public_id();
    let mut want: Vec<(Json, Option<String>)> = vec![];
    let mut ids: Vec<String> = vec![];
    let first = world().said.len();
    let many = 1 + choice(SENT);
    for k in 0..many {
        // different kinds of characters where there is one message
        let c = if many == 1 { ['"', '\\', 'z', ' ', '\u{1}', 'é'][choice(6)] } else { ['"', '\\', '~'][k] };
        let (key, num) = (format!("k{}", c), [3, -12, 40][k]);
        let mut values: VecMap<CompactString, Json, false> = VecMap::new();
        let full = choice(2) == 1;
        if full { values.insert("z".into(), json!([num, "a\"b", true])); values.insert(key.as_str().into(), json!(k)); }
        let content = if full { json!({ "z": [num, "a\"b", true], key.as_str(): k }) } else { json!({}) };
        let kind = choice(3);
        let to = choice(4);
        let targets: Vec<CompactString> = match to { 0 => vec![], 1 => vec!["bob@room".into()], 2 => vec!["everyone in room".into()], _ => vec!["everyone in room".into(), "b".into(), "everyone in room".into()] };
        let dst: Vec<String> = targets.iter().map(|x| if x == "everyone in room" { String::from(id.as_str()) } else { String::from(x.as_str()) }).collect();
        if kind == 2 {
            if to > 0 { stop() }
            check!(s.send_reply(InternReplyKey { src_id: format!("{}@x", c).into(), request_id: "rq".into() }, json!({ "v": num })).is_ok());
            want.push((json!({ "type": "message", "dstId": format!("{}@x", c), "msgType": "__reply__", "requestId": "rq", "content": { "body": { "v": num } } }), None));
        } else {
            let mut m = json!({ "type": "message", "dstId": dst, "srcId": id.as_str(), "msgType": format!("m{}", c), "content": content });
            match s.send_message(format!("m{}", c).into(), values, targets, kind == 1) {
                Ok(Some(k)) => { check!(kind == 1); m["requestId"] = json!(k.request_id.as_str()); check!(!ids.iter().any(|x| *x == k.request_id.as_str())); ids.push(k.request_id.as_str().into()); }
                Ok(None) => check!(kind == 0),
                Err(_) => check!(false),
            }
            want.push((m, None));
        }
        if choice(2) == 1 { tick(); }
    }
    for _ in 0..4 { tick(); }
    cover!();
    let got = &world().said[first..];
    check!(got.len() == want.len());
    for (a, b) in got.iter().zip(&want) { check!(parsed(a) == b.0) }
}
/// a packet from the network: the message it is, if it is one, and whether it asks for a pong
const PACKETS: usize = 17;
fn packet(k: usize, c: char, x: i32) -> (Result<Message, ()>, Option<(String, Vec<(&'static str, V)>, Option<(String, String)>)>, bool) {
    let text = |x: String| Ok(Message::Text(x.into()));
    let m = format!("m{}", c);
    let esc = serde_json::to_string(&m).unwrap();
    match k {
        0 => (text(format!(r#"{{"type":"message","msgType":{},"content":{{"a":{},"b":["x",true]}}}}"#, esc, x)), Some((m, vec![("a", n(x as f64)), ("b", V::L(vec![t("x"), V::B(true)]))], None)), false),
        1 => (text(format!(r#"{{"content":{{}},"msgType":{},"srcId":"bob","requestId":"r{}","type":"message","dstId":["me"]}}"#, esc, x)), Some((m, vec![], Some(("bob".into(), format!("r{}", x))))), false),
        2 => (text(format!(r#"{{"type":"message","msgType":{},"srcId":"bob","content":{{"a":null,"b":{},"c":[null]}}}}"#, esc, x)), Some((m, vec![("b", n(x as f64))], None)), false),
        3 => (text(r#"{"type":"ping"}"#.into()), None, true),
        4 => (text(format!(r#"{{"type":"message","msgType":{},"content":[1]}}"#, esc)), None, false),
        5 => (text(format!(r#"{{"type":"message","msgType":{},"content":{{}},"requestId":"r"}}"#, esc)), None, false),
        6 => (text(format!(r#"{{"type":"message","msgType":{},"content":{{}},"requestId":7,"srcId":"bob"}}"#, esc)), None, false),
        7 => (text(r#"{"type":"message","content":{}}"#.into()), None, false),
        8 => (text(format!(r#"{{"type":"other","msgType":{},"content":{{}}}}"#, esc)), None, false),
        9 => (text(format!(r#"{{"msgType":{},"content":{{}}}}"#, esc)), None, false),
        10 => (text(format!("{}", c)), None, false),
        11 => (text(format!(r#"{{"type":"message","msgType":{},"content":{{"#, esc)), None, false),
        12 => (Ok(Message::Binary(vec![c as u8])), None, false),
        13 => (Err(()), None, false),
        14 => (text(r#"{"type":"message","msgType":"__reply__","requestId":"none","content":{"body":1}}"#.into()), None, false),
        15 => (text(r#"{"type":"message","msgType":"__reply__","content":{"body":1}}"#.into()), None, false),
        _ => (text(r#"{"type":"message","msgType":"__reply__","requestId":"id-1","content":{"bod":1}}"#.into()), None, false),
    }
}
fn simple(x: &SimpleValue) -> V {
    match x { SimpleValue::Bool(x) => V::B(*x), SimpleValue::Number(x) => n(x.get()), SimpleValue::Text(x) => t(x), SimpleValue::List(x) => V::L(x.iter().map(simple).collect()), _ => V::Deep }
}
const HEARD: usize = if cfg!(feature = "deep") { 3 } else { 2 };
/// what comes in is handed on, once and in order; what is no message changes nothing
pub fn hearing() {
    let s = system(Config::default());
    let first = world().said.len();
    let (mut want, mut pongs) = (vec![], 0);
    for i in 0..HEARD {
        let k = choice(PACKETS + 1);
        if k == PACKETS {
            // put there by the program around the machine
            let x = [5, -7, 0][i];
            let mut v: VecMap<CompactString, SimpleValue, false> = VecMap::new();
            if i != 1 { v.insert("q".into(), SimpleValue::Number(Number::new(x as f64).unwrap())); }
            s.inject_message("put".into(), v);
            want.push(("put".into(), if i != 1 { vec![("q", n(x as f64))] } else { vec![] }, None));
        } else {
            let (p, m, ping) = packet(k, ['"', '~', 'x'][i], [12, -3, 4][i]);
            world().heard.push_back(p);
            if let Some(m) = m { want.push(m) }
            if ping { pongs += 1 }
        }
        tick();
    }
    for _ in 0..3 { tick(); }
    cover!();
    for w in &want {
        match s.receive_message() {
            Some(m) => {
                check!(m.msg_type.as_str() == w.0.as_str() && m.values.len() == w.1.len());
                for (k, v) in &w.1 { match m.values.get(*k) { Some(x) => check!(veq_(&simple(x), v)), None => check!(false) } }
                match (&m.reply_key, &w.2) { (Some(k), Some((a, b))) => check!(k.src_id.as_str() == a.as_str() && k.request_id.as_str() == b.as_str()), (None, None) => (), _ => check!(false) }
            }
            None => check!(false),
        }
    }
    check!(s.receive_message().is_none());
    let said = &world().said[first..];
    check!(said.len() == pongs);
    for x in said { check!(parsed(x) == json!({ "type": "pong" })) }
}
fn veq_(a: &V, b: &V) -> bool { a == b }
const EVENTS: usize = if cfg!(feature = "deep") { 7 } else { 6 };
/// a message that waits for its reply gets the first that comes for it, or nothing once a second and a half has passed
pub fn replies() {
    let s = system(Config::default());
    let sent = any_u32();
    assume(sent < 1_000_000_000);
    world().times = vec![base().replace_nanosecond(sent).unwrap()];
    let send = |s: &S2| match s.send_message("q".into(), VecMap::new(), vec!["bob".into()], true) { Ok(Some(k)) => k, _ => { check!(false); stop() } };
    let keys = [send(&s), send(&s)];
    check!(keys[0] != keys[1]);
    // the reply that came, whether it is over
    let mut reply: [Option<i32>; 2] = [None, None];
    let mut over = [false; 2];
    let mut elapsed: i64 = 0;
    let (mut sec, mut next) = (0, 7);
    for _ in 0..EVENTS {
        let w = choice(2);
        match choice(4) {
            0 => {
                let x = next;
                next += 1;
                world().heard.push_back(Ok(Message::Text(format!(r#"{{"type":"message","msgType":"__reply__","requestId":"{}","content":{{"body":[{}]}}}}"#, keys[w].request_id, x).into())));
                tick();
                if !over[w] && reply[w].is_none() { reply[w] = Some(x) }
            }
            1 => {
                if w == 1 || sec == 2 { stop() }
                sec += 1;
                let ns = any_u32();
                assume(ns < 1_000_000_000);
                let e = sec * 1_000_000_000 + ns as i64 - sent as i64;
                assume(e >= elapsed);
                elapsed = e;
                world().times = vec![(base() + Duration::seconds(sec)).replace_nanosecond(ns).unwrap()];
            }
            _ => {
                if over[w] { stop() }
                match s.poll_reply(&keys[w]) {
                    AsyncResult::Pending => { check!(reply[w].is_none() && elapsed <= 1_500_000_000); cover!(); }
                    AsyncResult::Completed(Some(v)) => { check!(reply[w].map(|x| v == json!([x])) == Some(true)); over[w] = true; cover!(); }
                    AsyncResult::Completed(None) => { check!(reply[w].is_none() && elapsed > 1_500_000_000); over[w] = true; cover!(); }
                    AsyncResult::Consumed => check!(false),
                }
            }
        }
    }
    check!(s.receive_message().is_none());
}
/// an answer of a service, and what it means: a value or a message about what went wrong
const ANSWERS: usize = 14;
fn answer(k: usize, c: char) -> (Answer, Result<SimpleValue, Option<String>>) {
    let text = |x: &str| Ok(SimpleValue::Text(x.into()));
    let b = [c as u8, b'z'];
    let json = Some(&b"application/json; charset=utf-8"[..]);
    let img = || Ok(SimpleValue::Image(Image { content: b.to_vec(), center: None, name: "untitled".into() }));
    let snd = || Ok(SimpleValue::Audio(Audio { content: b.to_vec(), name: "untitled".into() }));
    let list = || Ok(SimpleValue::List(vec![SimpleValue::Number(Number::new(1.0).unwrap()), SimpleValue::Text(format!("{}", c).into())]));
    let listed = serde_json::to_string(&json!([1, format!("{}", c)])).unwrap();
    match k {
        0 => (is(200, json, listed.as_bytes()), list()),
        1 => (is(200, Some(b"text/html"), listed.as_bytes()), list()),
        2 => (is(201, None, b"<costume x"), text("<costume x")),
        3 => (is(200, Some(b"text/plain"), &[b'x', c as u8, b'"']), Ok(SimpleValue::Text(format!("x{}\"", c).into()))),
        4 => (is(200, Some(b"image/png"), &b), img()),
        5 => (is(200, Some(b"IMAGE/Jpeg"), &b), img()),
        6 => (is(200, Some(b"audio/mpeg"), &b), snd()),
        7 => (is(299, Some(b"Audio/wav"), &b), snd()),
        8 => (is(500, json, &[b'n', c as u8]), Err(Some(format!("n{}", c)))),
        9 => (is(404, Some(b"image/png"), b"gone"), Err(Some("gone".into()))),
        10 => (is(300, None, &[0xff, c as u8]), Err(None)),
        11 => (is(200, Some(b"text/plain"), &[b'a', 0xff, c as u8]), Err(None)),
        12 => (Answer::Unreachable, Err(None)),
        _ => (Answer::Is { status: 200, kind: None, body: vec![b'a'], cut: true }, Err(None)),
    }
}
fn with_process(s: Rc<S2>, f: impl for<'gc> FnOnce(&'gc Mutation<'gc>, &mut Process<'gc, C2, S2>)) { with_code(s, vec![ret(num(1.0))], f) }
fn with_code(s: Rc<S2>, code: Vec<Stmt>, f: impl for<'gc> FnOnce(&'gc Mutation<'gc>, &mut Process<'gc, C2, S2>)) {
    gc(|mc| {
        let mut role = main_role(&[], code);
        role.entities[0].fields.push(vi("mine", AV::Number(0.0)));
        let (code, init, _, info) = match ByteCode::compile(&role) { Ok(x) => x, Err(_) => panic!("compile") };
        let glob: GlobalContext<'_, C2, S2> = GlobalContext::from_init(mc, &init, Rc::new(code), Settings::default(), s);
        let entity = *glob.entities.iter().next().unwrap().1;
        let mut p = Process::new(ProcContext { global_context: Gc::new(mc, RefLock::new(glob)), entity, locals: SymbolTable::default(), state: P2, start_pos: info.funcs[0].1, barrier: None, reply_key: None, local_message: None });
        f(mc, &mut p);
    })
}
fn same(v: &Value<'_, C2, S2>, w: &SimpleValue) -> bool {
    match (v, w) {
        (Value::Text(a), SimpleValue::Text(b)) => a.as_str() == b.as_str(),
        (Value::Number(a), SimpleValue::Number(b)) => a.get() == b.get(),
        (Value::Bool(a), SimpleValue::Bool(b)) => a == b,
        (Value::List(a), SimpleValue::List(b)) => { let a = a.borrow(); a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)) }
        (Value::Image(a), SimpleValue::Image(b)) => a.content == b.content && a.name == b.name && a.center.is_none() == b.center.is_none(),
        (Value::Audio(a), SimpleValue::Audio(b)) => a.content == b.content && a.name == b.name,
        _ => false,
    }
}
/// services are asked for what the program asked for, and each call gets its own answer
pub fn calls() {
    let s = Rc::new(system(Config::default()));
    let id = s.get_public_id();
    let client = String::from(&id["my proj@".len()..id.len() - 3]);
    let before = world().http.len();
    let c = printable();
    let k = [choice(ANSWERS), choice(4) * 4];
    let host = choice(2) == 1;
    let late = choice(2) == 1;
    let (service, rpc) = [("Geo", "find"), ("PublicRoles", "getPublicRoleId")][choice(2)];
    with_process(s.clone(), |mc, p| {
        let x = [4, -250][choice(2)];
        let mut args: VecMap<CompactString, Value<'_, C2, S2>, false> = VecMap::new();
        args.insert("n".into(), Value::Number(Number::new(x as f64).unwrap()));
        args.insert("a".into(), Value::List(Gc::new(mc, RefLock::new([Value::Text(format!("t{}", c).as_str().into()), Value::Bool(true)].into_iter().collect()))));
        let keys: Vec<_> = [(service, rpc, args), ("Other", "rpc", VecMap::new())].into_iter().enumerate().map(|(i, (service, rpc, args))| {
            match s.perform_request(mc, Request::Rpc { host: if host && i == 0 { Some("http://own.example".into()) } else { None }, service: service.into(), rpc: rpc.into(), args }, p) { Ok(k) => k, Err(_) => { check!(false); stop() } }
        }).collect();
        for _ in 0..3 { tick(); }
        let http = &world().http[before..];
        check!(http.len() == 2);
        for (i, (h, path)) in http.iter().zip([format!("{}/{}/{}?", if host { "http://own.example" } else { "https://services.example/s" }, service, rpc), "https://services.example/s/Other/rpc?".into()]).enumerate() {
            check!(h.method == "POST" && h.url.starts_with(path.as_str()) && h.url[path.len()..].split('&').any(|x| x.strip_prefix("clientId=") == Some(client.as_str())));
            check!(h.body == Some(if i == 0 { json!({ "n": x as f64, "a": [format!("t{}", c), true] }) } else { json!({}) }));
        }
        // the answers come in either order
        let mut done = [false; 2];
        for turn in 0..2 {
            let i = if late { 1 - turn } else { turn };
            let (a, want) = answer(k[i], c);
            world().http[before + i].answer = Some(a);
            for _ in 0..3 { tick(); }
            done[i] = true;
            for j in 0..2 { if !done[j] { match s.poll_request(mc, &keys[j], p) { Ok(AsyncResult::Pending) => (), _ => check!(false) } } }
            cover!();
            match (s.poll_request(mc, &keys[i], p), want) {
                (Ok(AsyncResult::Completed(Ok(v))), Ok(w)) => check!(same(&v, &w)),
                (Ok(AsyncResult::Completed(Err(e))), Err(w)) => check!(match &w { Some(w) => e.as_str() == w.as_str(), None => !e.is_empty() }),
                _ => check!(false),
            }
            match s.poll_request(mc, &keys[i], p) { Ok(AsyncResult::Consumed) => (), _ => check!(false) }
        }
        check!(world().http.len() == before + 2);
    });
}
/// what the program around the machine handles goes to it first; what nobody handles is refused
pub fn handlers() {
    let (request, command) = (choice(3), choice(3));
    let mut config: Config<C2, S2> = Config::default();
    let x = any_i32();
    let v = move || SimpleValue::Number(Number::new(x as f64).unwrap());
    // 1: takes all, 2: takes none
    if request > 0 { config.request = Some(Rc::new(move |_, key: AsyncKey<_>, r, _| if request == 1 { key.complete(Ok(I2(v()))); RequestStatus::Handled } else { RequestStatus::UseDefault { key, request: r } })); }
    if command > 0 { config.command = Some(Rc::new(move |_, key: AsyncKey<_>, c, _| if command == 1 { key.complete(if x > 0 { Ok(()) } else { Err("no".into()) }); CommandStatus::Handled } else { CommandStatus::UseDefault { key, command: c } })); }
    let s = Rc::new(system(config));
    let id = s.get_public_id();
    let before = world().http.len();
    with_process(s.clone(), |mc, p| {
        let kind = choice(5);
        let r = match kind {
            0 => Request::Rpc { host: None, service: "PublicRoles".into(), rpc: "getPublicRoleId".into(), args: VecMap::new() },
            1 => Request::Input { prompt: None },
            2 => Request::Syscall { name: "s".into(), args: vec![] },
            3 => Request::Property { prop: Property::XPos },
            _ => { let mut a = VecMap::new(); let e = p.get_call_stack()[0].entity; a.insert("e".into(), Value::Entity(e)); Request::Rpc { host: None, service: "A".into(), rpc: "b".into(), args: a } }
        };
        let got = s.perform_request(mc, r, p);
        for _ in 0..3 { tick(); }
        cover!();
        check!(world().http.len() == before);
        match got {
            Ok(k) => match s.poll_request(mc, &k, p) {
                Ok(AsyncResult::Completed(Ok(y))) => { if request == 1 { check!(same(&y, &v())) } else { check!(kind == 0 && same(&y, &SimpleValue::Text(id.as_str().into()))) } }
                Ok(AsyncResult::Completed(Err(_))) => check!(request != 1 && kind == 4),
                _ => check!(false),
            },
            Err(ErrorCause::NotSupported { feature }) => check!(request != 1 && match feature { Feature::Input => kind == 1, Feature::Syscall { .. } => kind == 2, Feature::GetProperty { .. } => kind == 3, _ => false }),
            Err(_) => check!(false),
        }
        match s.perform_command(mc, Command::StopSounds, p) {
            Ok(k) => match s.poll_command(mc, &k, p) { Ok(AsyncResult::Completed(r)) => check!(command == 1 && r.is_ok() == (x > 0)), _ => check!(false) },
            Err(ErrorCause::NotSupported { feature: Feature::StopSounds }) => check!(command != 1),
            Err(_) => check!(false),
        }
    });
}
/// a script whose block asks the program around the machine, which may look at everything, goes on
fn block(b: Stmt) {
    let mut config: Config<C2, S2> = Config::default();
    config.request = Some(Rc::new(|_, key: AsyncKey<_>, _, _| { key.complete(Ok(I2(SimpleValue::Bool(true)))); RequestStatus::Handled }));
    config.command = Some(Rc::new(|_, key: AsyncKey<_>, _, _| { key.complete(Ok(())); CommandStatus::Handled }));
    let s = Rc::new(system(config));
    // on its own, by a sprite that has itself in a variable, or by a clone that is in a variable of its original
    let code = match choice(3) {
        0 => vec![b, ret(num(7.0))],
        1 => vec![assign("mine", ent("Stage")), b, ret(num(7.0))],
        _ => vec![assign("mine", e(X::Clone { target: bx(ent("Stage")) })), ret(e(X::CallClosure { new_entity: Some(bvar("mine")), closure: bx(clos(&[], &[], vec![b, ret(num(7.0))])), args: vec![] }))],
    };
    with_code(s, code, |mc, p| {
        for _ in 0..60 {
            match p.step(mc) {
                Ok(ProcessStep::Terminate { result: Value::Number(x) }) => { check!(x.get() == 7.0); cover!(); return }
                Ok(ProcessStep::Terminate { .. }) | Err(_) => check!(false),
                Ok(_) => (),
            }
        }
        check!(false);
    });
}
pub fn blocks() {
    let x = || bx(num(3.0));
    block(match choice(17) {
        0 => say(list(vec![ent("Stage"), num(1.0)])), 1 => s(K::Forward { distance: x() }), 2 => s(K::GotoXY { x: x(), y: x() }), 3 => s(K::Goto { target: bx(list(vec![num(1.0), num(2.0)])) }),
        4 => s(K::PointTowards { target: bx(list(vec![num(1.0), num(2.0)])) }), 5 => s(K::PointTowardsXY { x: x(), y: x() }), 6 => s(K::SetX { value: x() }), 7 => s(K::ChangeSize { delta: x() }), 8 => s(K::ClearEffects), 9 => s(K::PenClear),
        10 => s(K::StopSounds), 11 => s(K::SetCostume { costume: bx(txt("")) }), 12 => say(e(X::XPos)), 13 => s(K::Ask { prompt: bx(txt("?")) }), 14 => s(K::SetPenSize { value: x() }),
        15 => say(e(X::CallRpc { host: None, service: "A".into(), rpc: "b".into(), args: vec![("l".into(), list(vec![num(1.0)]))] })), _ => say(e(X::UnknownBlock { name: "u".into(), args: vec![list(vec![])] })),
    });
}
pub fn to_sprite() { block(if choice(2) == 1 { s(K::Goto { target: bx(ent("Stage")) }) } else { s(K::PointTowards { target: bx(ent("Stage")) }) }) }
harnesses!(blocks, to_sprite, starting, sending, hearing, replies, calls, handlers);
