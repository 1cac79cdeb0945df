#![no_std]
#![allow(dead_code, unused_imports, unused_variables, unused_macros)]
#[macro_use]
extern crate alloc;
#[macro_use]
pub mod rt;
pub mod sys;
pub mod b;
pub mod interp;
#[macro_use]
pub mod lang;
pub mod sched;
macro_rules! props { ($($m:ident $f:literal $p:literal)*) => {
    $( #[cfg(any(feature = $f, feature = "all"))] #[path = $p] pub mod $m; )*
    pub fn all() -> alloc::vec::Vec<(&'static str, &'static [(&'static str, fn())])> {
        let mut v: alloc::vec::Vec<(&'static str, &'static [(&'static str, fn())])> = alloc::vec![];
        $( #[cfg(any(feature = $f, feature = "all"))] v.push(($f, $m::LIST)); )*
        v
    }
} }
include!("props.rs");
macro_rules! println { () => { () }; ($($x:tt)*) => { { let _ = alloc::format!($($x)*); } } }
macro_rules! eprintln { () => { () }; ($($x:tt)*) => { { let _ = alloc::format!($($x)*); } } }
// src/std_util.rs and src/std_system.rs need the standard library and others: they are compiled here, and find the stand-ins of sim.rs under the names they use
#[cfg(any(feature = "p37", feature = "p38", feature = "all"))] pub mod sim;
#[cfg(any(feature = "p37", feature = "p38", feature = "all"))] #[path = "/repo/src/std_util.rs"] pub mod std_util;
#[cfg(any(feature = "p38", feature = "all"))] #[path = "/repo/src/std_system.rs"] pub mod std_system;
#[cfg(any(feature = "p37", feature = "p38", feature = "all"))] pub use {sim::{real_time, std}, netsblox_vm::{runtime, process, gc, json, vecmap, compact_str}, educe::Educe};
#[cfg(any(feature = "p38", feature = "all"))] pub use sim::{async_channel, futures, getrandom, names, rand_chacha, reqwest, tokio, tokio_tungstenite, uuid};
