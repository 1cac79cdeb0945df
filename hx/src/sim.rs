//! What src/std_util.rs and src/std_system.rs find under the names of the standard library and of the crates for threads, tasks,
//! connections and requests: stand-ins that run on one thread, in an order of the tasks, with a network, a time and randomness given
//! by the harness. The files themselves are compiled into this crate as they are (lib.rs).
use alloc::boxed::Box; use alloc::collections::VecDeque; use alloc::rc::{Rc, Weak}; use alloc::string::String; use alloc::vec::Vec;
use core::cell::{RefCell, UnsafeCell};
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, Waker};
use netsblox_vm::json::Json;
use netsblox_vm::real_time::OffsetDateTime;

/// everything outside of the machine
#[derive(Default)]
pub struct World {
    /// the real time: each time it is asked for it is the next of these, in the end the last one
    pub times: Vec<OffsetDateTime>, pub asked: usize,
    tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    /// requests made, and the answers given to them
    pub http: Vec<Http>,
    pub connected: Vec<String>, pub said: Vec<String>, pub heard: VecDeque<Result<tokio_tungstenite::tungstenite::Message, ()>>,
    ids: usize,
    /// gives the answer to a request as soon as it is made, if any
    pub server: Option<fn(&Http) -> Option<Answer>>,
}
pub struct Http { pub method: &'static str, pub url: String, pub body: Option<Json>, pub answer: Option<Answer> }
#[derive(Clone)]
pub enum Answer { Unreachable, Is { status: u16, kind: Option<Vec<u8>>, body: Vec<u8>, cut: bool } }
struct Place(UnsafeCell<Option<Box<World>>>);
unsafe impl Sync for Place {}
static WORLD: Place = Place(UnsafeCell::new(None));
pub fn world() -> &'static mut World { unsafe { (*WORLD.0.get()).get_or_insert_with(Default::default) } }
/// a new world
pub fn reset() { unsafe { *WORLD.0.get() = None } }
/// every task does what it can
pub fn tick() {
    let mut i = 0;
    while i < world().tasks.len() {
        if let Some(mut t) = world().tasks[i].take() {
            if t.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_pending() { world().tasks[i] = Some(t); }
        }
        i += 1;
    }
}
pub fn thread_main(f: impl Future<Output = ()> + 'static) { world().tasks.push(Some(Box::pin(f))); }
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { return x }
        tick();
    }
    panic!("it never ends")
}
/// waits until there is something
async fn until<T>(mut f: impl FnMut() -> Option<T>) -> T { core::future::poll_fn(|_| match f() { Some(x) => Poll::Ready(x), None => Poll::Pending }).await }
fn id() -> usize { world().ids += 1; world().ids }

pub mod real_time {
    pub use netsblox_vm::real_time::*;
    pub trait Now { fn now_utc() -> OffsetDateTime; }
    impl Now for OffsetDateTime { fn now_utc() -> OffsetDateTime { let w = super::world(); w.asked += 1; w.times[(w.asked - 1).min(w.times.len() - 1)] } }
}
pub mod std {
    pub use core::{any, array, cell, char, clone, cmp, convert, default, fmt, future, hash, hint, iter, marker, mem, num, ops, option, pin, ptr, result, task};
    pub use core::{assert, assert_eq, debug_assert, debug_assert_eq, matches, panic, todo, unimplemented, unreachable, write, writeln};
    pub mod collections { pub use alloc::collections::*; pub type HashMap<K, V> = BTreeMap<K, V>; pub type HashSet<T> = BTreeSet<T>; }
    pub mod error { pub use core::error::Error; }
    pub mod prelude { pub mod v1 { pub use core::prelude::v1::*; pub use alloc::{borrow::ToOwned, boxed::Box, string::{String, ToString}, vec::Vec}; } }
    pub use alloc::{borrow, boxed, format, rc, slice, str, string, vec};
    pub mod sync {
        pub use alloc::sync::{Arc, Weak};
        pub use core::sync::atomic;
        use core::cell::{RefCell, RefMut};
        /// locks of a single thread; to lock twice is never to return
        #[derive(Default)]
        pub struct Mutex<T>(RefCell<T>);
        impl<T> Mutex<T> {
            pub fn new(v: T) -> Self { Mutex(RefCell::new(v)) }
            pub fn lock(&self) -> Result<RefMut<'_, T>, core::cell::BorrowMutError> { self.0.try_borrow_mut() }
            pub fn into_inner(self) -> Result<T, core::cell::BorrowMutError> { Ok(self.0.into_inner()) }
        }
        pub type MutexGuard<'a, T> = RefMut<'a, T>;
        #[derive(Default)]
        pub struct RwLock<T>(RefCell<T>);
        impl<T> RwLock<T> {
            pub fn new(v: T) -> Self { RwLock(RefCell::new(v)) }
            pub fn read(&self) -> Result<core::cell::Ref<'_, T>, core::cell::BorrowError> { self.0.try_borrow() }
            pub fn write(&self) -> Result<RefMut<'_, T>, core::cell::BorrowMutError> { self.0.try_borrow_mut() }
        }
        pub mod mpsc {
            use crate::sim::*;
            pub struct Sender<T>(Rc<RefCell<VecDeque<T>>>, Rc<()>);
            pub struct Receiver<T>(Rc<RefCell<VecDeque<T>>>, Weak<()>);
            #[derive(Debug)] pub struct SendError; #[derive(Debug)] pub struct RecvError; #[derive(Debug, PartialEq, Eq)] pub enum TryRecvError { Empty, Disconnected }
            pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let (q, t) = (Rc::new(RefCell::new(VecDeque::new())), Rc::new(())); let w = Rc::downgrade(&t); (Sender(q.clone(), t), Receiver(q, w)) }
            impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender(self.0.clone(), self.1.clone()) } }
            impl<T> Sender<T> { pub fn send(&self, v: T) -> Result<(), SendError> { if Rc::strong_count(&self.0) == Rc::strong_count(&self.1) { return Err(SendError) } self.0.borrow_mut().push_back(v); Ok(()) } }
            impl<T> Receiver<T> {
                pub fn try_recv(&self) -> Result<T, TryRecvError> { self.0.borrow_mut().pop_front().ok_or(if self.1.strong_count() == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }) }
                pub async fn recv(&self) -> Result<T, RecvError> { until(|| match self.0.borrow_mut().pop_front() { Some(x) => Some(Ok(x)), None => if self.1.strong_count() == 0 { Some(Err(RecvError)) } else { None } }).await }
            }
        }
    }
    pub mod thread { pub struct JoinHandle; pub fn spawn(f: impl FnOnce() + 'static) -> JoinHandle { f(); JoinHandle } }
    pub mod time {
        pub use core::time::Duration;
        #[derive(Clone, Copy)] pub struct SystemTime(u64);
        pub const UNIX_EPOCH: SystemTime = SystemTime(0);
        #[derive(Debug)] pub struct SystemTimeError;
        impl SystemTime { pub fn now() -> Self { SystemTime(1_700_000_000_123) } pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> { Ok(Duration::from_millis(self.0 - o.0)) } }
    }
}
#[cfg(any(feature = "p38", feature = "all"))]
pub mod tokio {
    pub use simmacro::main;
    pub struct JoinHandle;
    pub fn spawn(f: impl core::future::Future<Output = ()> + 'static) -> JoinHandle { super::thread_main(f); JoinHandle }
    pub mod time { pub async fn sleep(_: core::time::Duration) { let mut first = true; crate::sim::until(|| if core::mem::replace(&mut first, false) { None } else { Some(()) }).await } }
}
pub mod tokio_tungstenite {
    use super::*;
    pub mod tungstenite {
        use super::*;
        #[derive(Debug, Clone, PartialEq)] pub struct Utf8Bytes(String);
        impl core::fmt::Display for Utf8Bytes { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(&self.0) } }
        impl From<String> for Utf8Bytes { fn from(x: String) -> Self { Utf8Bytes(x) } }
        impl From<&str> for Utf8Bytes { fn from(x: &str) -> Self { Utf8Bytes(x.into()) } }
        impl core::ops::Deref for Utf8Bytes { type Target = str; fn deref(&self) -> &str { &self.0 } }
        impl Utf8Bytes { pub fn as_str(&self) -> &str { &self.0 } }
        #[derive(Debug, Clone, PartialEq)] pub enum Message { Text(Utf8Bytes), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close(Option<()>) }
    }
    use tungstenite::Message;
    impl Message { pub fn text(x: impl Into<tungstenite::Utf8Bytes>) -> Message { Message::Text(x.into()) } }
    pub struct Ws; pub struct Out; pub struct In;
    pub async fn connect_async(url: String) -> Result<(Ws, ()), ()> { world().connected.push(url); Ok((Ws, ())) }
    impl Ws { pub fn split(self) -> (Out, In) { (Out, In) } }
    impl Out { pub async fn send(&mut self, m: Message) -> Result<(), ()> { world().said.push(match m { Message::Text(x) => String::from(&*x), _ => "not a text".into() }); Ok(()) } }
    impl In {
        pub async fn next(&mut self) -> Option<Result<Message, ()>> { Some(until(|| world().heard.pop_front()).await) }
        pub async fn for_each<F: Future<Output = ()>>(mut self, mut f: impl FnMut(Result<Message, ()>) -> F) { while let Some(x) = self.next().await { f(x).await } }
    }
}
pub mod futures { pub trait StreamExt {} pub trait SinkExt {} }
pub mod async_channel {
    use super::*;
    pub struct Sender<T>(Rc<RefCell<VecDeque<T>>>, Rc<()>);
    pub struct Receiver<T>(Rc<RefCell<VecDeque<T>>>, Weak<()>);
    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { let (q, t) = (Rc::new(RefCell::new(VecDeque::new())), Rc::new(())); let w = Rc::downgrade(&t); (Sender(q.clone(), t), Receiver(q, w)) }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender(self.0.clone(), self.1.clone()) } }
    impl<T> Sender<T> { pub async fn send(&self, v: T) -> Result<(), ()> { self.0.borrow_mut().push_back(v); Ok(()) } }
    impl<T> Receiver<T> { pub async fn recv(&self) -> Result<T, ()> { until(|| match self.0.borrow_mut().pop_front() { Some(x) => Some(Ok(x)), None => if self.1.strong_count() == 0 { Some(Err(())) } else { None } }).await } }
}
#[cfg(any(feature = "p38", feature = "all"))]
pub mod reqwest {
    use super::*;
    #[derive(Debug)] pub struct Error;
    #[derive(Clone)] pub struct Client;
    pub struct ClientBuilder;
    impl ClientBuilder { pub fn build(self) -> Result<Client, Error> { Ok(Client) } }
    pub struct RequestBuilder { method: &'static str, url: String, body: Option<Json> }
    impl Client {
        pub fn new() -> Client { Client }
        pub fn builder() -> ClientBuilder { ClientBuilder }
        pub fn get(&self, url: impl Into<String>) -> RequestBuilder { RequestBuilder { method: "GET", url: url.into(), body: None } }
        pub fn post(&self, url: impl Into<String>) -> RequestBuilder { RequestBuilder { method: "POST", url: url.into(), body: None } }
    }
    impl RequestBuilder {
        pub fn json<T: serde::Serialize + ?Sized>(mut self, v: &T) -> Self { self.body = Some(netsblox_vm::json::serde_json::to_value(v).unwrap()); self }
        pub async fn send(self) -> Result<Response, Error> {
            let w = world();
            let k = w.http.len();
            let mut h = Http { method: self.method, url: self.url, body: self.body, answer: None };
            if let Some(s) = w.server { h.answer = s(&h); }
            w.http.push(h);
            match until(|| world().http[k].answer.clone()).await {
                Answer::Unreachable => Err(Error),
                Answer::Is { status, kind, body, cut } => Ok(Response { status: StatusCode(status), headers: HeaderMap(kind.map(HeaderValue)), body, cut }),
            }
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct StatusCode(u16);
    impl StatusCode { pub fn is_success(&self) -> bool { self.0 >= 200 && self.0 < 300 } pub fn as_u16(&self) -> u16 { self.0 } pub fn is_client_error(&self) -> bool { self.0 >= 400 && self.0 < 500 } pub fn is_server_error(&self) -> bool { self.0 >= 500 && self.0 < 600 } }
    pub mod header { pub const CONTENT_TYPE: &str = "content-type"; }
    pub struct HeaderValue(Vec<u8>);
    impl HeaderValue { pub fn as_bytes(&self) -> &[u8] { &self.0 } pub fn to_str(&self) -> Result<&str, core::str::Utf8Error> { core::str::from_utf8(&self.0) } }
    pub struct HeaderMap(Option<HeaderValue>);
    impl HeaderMap { pub fn get(&self, k: impl AsRef<str>) -> Option<&HeaderValue> { if k.as_ref().eq_ignore_ascii_case("content-type") { self.0.as_ref() } else { None } } }
    pub struct Bytes(Vec<u8>);
    impl Bytes { pub fn to_vec(&self) -> Vec<u8> { self.0.clone() } }
    impl From<Bytes> for Vec<u8> { fn from(x: Bytes) -> Vec<u8> { x.0 } }
    impl AsRef<[u8]> for Bytes { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl core::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
    pub struct Response { status: StatusCode, headers: HeaderMap, body: Vec<u8>, cut: bool }
    impl Response {
        pub fn status(&self) -> StatusCode { self.status }
        pub fn headers(&self) -> &HeaderMap { &self.headers }
        pub async fn bytes(self) -> Result<Bytes, Error> { if self.cut { Err(Error) } else { Ok(Bytes(self.body)) } }
        pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> { if self.cut { return Err(Error) } netsblox_vm::json::serde_json::from_slice(&self.body).map_err(|_| Error) }
    }
}
pub mod uuid { pub struct Uuid(usize); impl Uuid { pub fn new_v4() -> Uuid { Uuid(super::id()) } } impl core::fmt::Display for Uuid { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "id-{}", self.0) } } }
pub mod names { #[derive(Default)] pub struct Generator; impl Iterator for Generator { type Item = alloc::string::String; fn next(&mut self) -> Option<Self::Item> { Some("odd-name".into()) } } }
pub mod getrandom { pub fn fill(b: &mut [u8]) -> Result<(), core::fmt::Error> { b.fill(7); Ok(()) } }
pub mod rand_chacha {
    /// any sequence of numbers
    pub struct ChaChaRng;
    impl rand::SeedableRng for ChaChaRng { type Seed = [u8; 32]; fn from_seed(_: [u8; 32]) -> Self { ChaChaRng } }
    impl rand::RngCore for ChaChaRng {
        fn next_u32(&mut self) -> u32 { crate::rt::any_u32() }
        fn next_u64(&mut self) -> u64 { crate::rt::any_u64() }
        fn fill_bytes(&mut self, b: &mut [u8]) { for x in b { *x = crate::rt::any_u8() } }
    }
}
