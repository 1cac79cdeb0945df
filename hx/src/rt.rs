//! Interface to the engine (symbolic run) or to the replay driver (native run).
extern "C-unwind" {
    fn sx_any(p: *mut u8, n: usize);
    fn sx_choice(n: u32) -> u32;
    fn sx_assume(b: bool);
    fn sx_check(b: bool, id: u32);
    fn sx_cover(id: u32);
    fn sx_obs(k: u64, v: u64);
    fn sx_stop() -> !;
}
macro_rules! any_int { ($($f:ident $t:ident $n:literal)*) => { $(#[inline(never)] pub fn $f() -> $t { let mut b = [0u8; $n]; unsafe { sx_any(b.as_mut_ptr(), $n) }; $t::from_le_bytes(b) })* } }
any_int! { any_u8 u8 1 any_u16 u16 2 any_u32 u32 4 any_u64 u64 8 any_i32 i32 4 any_i64 i64 8 any_f64 f64 8 any_f32 f32 4 }
pub fn any_bool() -> bool { any_u8() & 1 == 1 }
/// a concrete choice in 0..n; the engine explores all of them
#[inline(never)]
pub fn choice(n: usize) -> usize { unsafe { sx_choice(n as u32) as usize } }
pub fn assume(b: bool) { unsafe { sx_assume(b) } }
pub fn check(b: bool, id: u32) { unsafe { sx_check(b, id) } }
pub fn cover(id: u32) { unsafe { sx_cover(id) } }
pub fn obs(k: u64, v: u64) { unsafe { sx_obs(k, v) } }
pub fn stop() -> ! { unsafe { sx_stop() } }
/// assertion about the property; the solver decides it for every value on this path
#[macro_export]
macro_rules! check { ($e:expr $(,)?) => { $crate::rt::check($e, line!()) } }
/// reachability witness; the driver fails the check as vacuous if no path gets here
#[macro_export]
macro_rules! cover { () => { $crate::rt::cover(line!()) } }
/// the harness entry points of a property module
#[macro_export]
macro_rules! harnesses {
    ($($f:ident),* $(,)?) => {
        pub const LIST: &[(&str, fn())] = &[$((stringify!($f), $f as fn())),*];
        #[cfg(feature = "ir")]
        mod exports { $( #[export_name = concat!("h_", stringify!($f))] pub extern "C" fn $f() { super::$f() } )* }
    }
}

#[cfg(feature = "ir")]
mod ir {
    extern "C" { fn sx_panic(p: *const u8, n: usize, line: u32) -> !; fn sx_alloc(n: usize, a: usize) -> *mut u8; fn sx_free(p: *mut u8); }
    struct A;
    unsafe impl core::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 { sx_alloc(l.size(), l.align()) }
        unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) { sx_free(p) }
    }
    #[global_allocator]
    static GA: A = A;
    #[panic_handler]
    fn panic(i: &core::panic::PanicInfo) -> ! {
        let (f, l) = i.location().map(|l| (l.file(), l.line())).unwrap_or(("?", 0));
        unsafe { sx_panic(f.as_ptr(), f.len(), l) }
    }
}
