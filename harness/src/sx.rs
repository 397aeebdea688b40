//! Interface between a harness and whatever runs it.
//!
//! Symbolic run: `symex` implements the `sx_*` functions, every byte handed out by
//! `sx_bytes` is a fresh solver variable.
//! Native replay (`--features native`): the same functions read a concrete input.
#[cfg(not(feature = "native"))]
extern "C" {
    pub fn sx_bytes(p: *mut u8, n: usize);
    pub fn sx_assume(c: bool);
    pub fn sx_check(c: bool, msg: *const u8, len: usize);
    pub fn sx_cover(p: *const u8, len: usize);
    pub fn sx_expect(p: *const u8, len: usize);
    pub fn sx_observe(v: u64);
    pub fn sx_live_heap() -> u64;
    pub fn sx_alloc_limit(n: u64);
}
#[cfg(feature = "native")]
pub use crate::native::*;

#[inline(never)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { sx_check(c, msg.as_ptr(), msg.len()) }
}
/// Marks a point of interest as reached.
#[inline(never)]
pub fn cover(name: &'static str) {
    unsafe { sx_cover(name.as_ptr(), name.len()) }
}
/// Declares that `name` must be covered by at least one explored path (vacuity guard).
#[inline(never)]
pub fn expect(name: &'static str) {
    unsafe { sx_expect(name.as_ptr(), name.len()) }
}
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
pub fn live_heap() -> u64 {
    unsafe { sx_live_heap() }
}
/// From now on no single allocation may be larger than `n` bytes (0: no limit).
pub fn alloc_limit(n: usize) {
    unsafe { sx_alloc_limit(n as u64) }
}
pub fn fill(b: &mut [u8]) {
    unsafe { sx_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn byte_vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
pub fn any_u8() -> u8 {
    bytes::<1>()[0]
}
pub fn any_u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn any_u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn any_u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn any_bool() -> bool {
    let x = any_u8();
    assume(x < 2);
    x == 1
}
/// A value in `0..n`; the result is concrete on every path (one fork per value).
#[inline(never)]
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let x = any_u8();
    assume((x as usize) < n);
    let mut i = 0;
    while i + 1 < n {
        if x as usize == i {
            return i;
        }
        i += 1;
    }
    n - 1
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}
/// Byte equality as one formula, without a branch per byte.
#[inline(never)]
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}

/// Entry points: plain functions, looked up by path (`harness::<property>::e::<name>`).
#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* $name:ident $body:block)*) => {
        pub mod e {
            #[allow(unused_imports)] use super::*;
            $($(#[$m])* #[allow(non_snake_case)] #[inline(never)] pub extern "C" fn $name() $body)*
        }
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((concat!(module_path!(), "::e::", stringify!($name)), e::$name as extern "C" fn()),)*];
    };
}
/// One entry per type family of a catalogue: `fam_entries!{ f; A B C }` calls `f::<A>()`.
#[macro_export]
macro_rules! fam_entries {
    ($f:ident; $($name:ident)*) => {
        $crate::entries! { $($name { $crate::props::$f::<$crate::cat::$name>() })* }
    };
}
