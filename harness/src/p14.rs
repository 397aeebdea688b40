//! P14: whatever a read builds is dropped exactly once.
use crate::ctx::*;
use crate::props::endian;
use crate::src::*;
use crate::sx::*;
use crate::val::H;
use speedy::{Readable, Reader};
use std::borrow::Cow;
use std::collections::*;
use std::ops::{Range, RangeInclusive};

const MAX: usize = 1300;
/// 0: not built, 1: alive, 2: dropped
static mut STATE: [u8; MAX] = [0; MAX];
static mut BUILT: usize = 0;
/// zero-sized ones have no identity, they can only be counted
static mut ZBUILT: usize = 0;
static mut ZDROPPED: usize = 0;
fn reset() { unsafe { STATE = [0; MAX]; BUILT = 0; ZBUILT = 0; ZDROPPED = 0 } }
fn alive() -> usize { unsafe { let mut n = ZBUILT - ZDROPPED; let mut i = 0; while i < BUILT { if STATE[i] == 1 { n += 1 } i += 1 } n } }
/// An element that knows whether it has been dropped.
pub struct D { id: usize, v: u8, heap: Option<Box<u8>> }
impl D {
    fn new(v: u8, heap: bool) -> D {
        unsafe {
            let id = BUILT;
            BUILT += 1;
            STATE[id] = 1;
            D { id, v, heap: if heap { Some(Box::new(v)) } else { None } }
        }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        unsafe {
            check(self.id < BUILT, "something that was never read is dropped");
            check(STATE[self.id] == 1, "an element is dropped twice");
            STATE[self.id] = 2;
        }
    }
}
impl Clone for D { fn clone(&self) -> D { D::new(self.v, true) } }
impl Default for D { fn default() -> D { D::new(0x55, true) } }
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.v == o.v } }
impl Eq for D {}
impl PartialOrd for D { fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for D { fn cmp(&self, o: &D) -> std::cmp::Ordering { self.v.cmp(&o.v) } }
impl std::hash::Hash for D { fn hash<S: std::hash::Hasher>(&self, s: &mut S) { self.v.hash(s) } }
const FAIL: u8 = 0xEE;
fn item<'a, R: Reader<'a, Cx>>(r: &mut R) -> Result<u8, Bad> {
    let v = r.read_u8()?;
    if v == FAIL { return Err(Bad::User(v)) }
    Ok(v)
}
impl<'a> Readable<'a, Cx> for D {
    fn read_from<R: Reader<'a, Cx>>(r: &mut R) -> Result<Self, Bad> { Ok(D::new(item(r)?, true)) }
}
/// The same without a minimum size of one: longer reads get under way before the input runs out.
pub struct M(D);
impl<'a> Readable<'a, Cx> for M {
    fn read_from<R: Reader<'a, Cx>>(r: &mut R) -> Result<Self, Bad> { Ok(M(D::new(item(r)?, false))) }
    fn minimum_bytes_needed() -> usize { 1 }
}
/// A zero-sized element.
pub struct Z;
impl<'a> Readable<'a, Cx> for Z {
    fn read_from<R: Reader<'a, Cx>>(r: &mut R) -> Result<Self, Bad> { item(r)?; unsafe { ZBUILT += 1 } Ok(Z) }
}
impl Drop for Z { fn drop(&mut self) { unsafe { ZDROPPED += 1; check(ZDROPPED <= ZBUILT, "something is dropped that was never read") } } }

/// how many elements a value holds
trait Count { fn count(&self) -> usize; }
impl Count for D { fn count(&self) -> usize { check(unsafe { STATE[self.id] } == 1, "an element that was already dropped is returned"); if let Some(h) = &self.heap { check(**h == self.v, "an element is corrupted") } 1 } }
impl Count for M { fn count(&self) -> usize { self.0.count() } }
impl Count for Z { fn count(&self) -> usize { 1 } }
impl Count for u8 { fn count(&self) -> usize { 0 } }
impl Count for u16 { fn count(&self) -> usize { 0 } }
macro_rules! iters { ($([$($g:tt)*] $t:ty;)*) => { $(impl<$($g)*> Count for $t { fn count(&self) -> usize { self.iter().map(|x| x.count()).sum() } })* } }
iters! { [T: Count] Vec<T>; [T: Count] Box<[T]>; [T: Count, const N: usize] [T; N]; [T: Count] Option<T>; [T: Count + Clone] Cow<'static, [T]>; [T: Count] BTreeSet<T>; [T: Count] HashSet<T, H>; }
impl<T: Count> Count for Box<T> { fn count(&self) -> usize { (**self).count() } }
impl<T: Count, E: Count> Count for Result<T, E> { fn count(&self) -> usize { match self { Ok(x) => x.count(), Err(x) => x.count() } } }
impl<T: Count> Count for Range<T> { fn count(&self) -> usize { self.start.count() + self.end.count() } }
impl<T: Count> Count for RangeInclusive<T> { fn count(&self) -> usize { self.start().count() + self.end().count() } }
impl<K: Count, V: Count> Count for BTreeMap<K, V> { fn count(&self) -> usize { self.iter().map(|(k, v)| k.count() + v.count()).sum() } }
impl<K: Count, V: Count> Count for HashMap<K, V, H> { fn count(&self) -> usize { self.iter().map(|(k, v)| k.count() + v.count()).sum() } }
macro_rules! tuples { ($(($($n:ident),*);)*) => { $(#[allow(non_snake_case)] impl<$($n: Count),*> Count for ($($n,)*) { fn count(&self) -> usize { let ($($n,)*) = self; 0 $(+ $n.count())* } })* } }
tuples! { (A); (A, B); (A, B, C); (A, B, C, E); (A, B, C, E, F, G, I, J, K, L, N); }

#[derive(Readable)] pub struct SPlain<T> { a: T, b: Vec<T>, c: u16, d: T }
#[derive(Readable)] pub struct SArr<T> { a: [T; 2], b: Option<T>, c: [T; 2] }
#[derive(Readable)] pub struct STup<T>(T, (T, T), T);
#[derive(Readable)] pub struct SLen<T> { #[speedy(length_type = u8)] a: Vec<T>, #[speedy(length_type = u8)] b: Vec<T>, c: T }
#[derive(Readable)] pub struct SExpr<T> { n: u8, #[speedy(length = n)] a: Vec<T>, b: T, #[speedy(length = n / 2)] c: Vec<T>, d: T }
#[derive(Readable)] pub struct SEof<T> { a: T, #[speedy(length = ..)] b: Vec<T> }
#[derive(Readable)] pub struct SMapEof<T: Ord> { a: T, #[speedy(length = ..)] b: BTreeMap<u8, T>, }
#[derive(Readable)] pub struct SSetLen<T: Ord> { #[speedy(length_type = u8)] b: BTreeSet<T>, c: T }
#[derive(Readable)] pub struct SDef<T: Default> { a: T, #[speedy(default_on_eof)] b: T, #[speedy(skip)] c: T, #[speedy(default_on_eof)] d: Vec<T>, }
#[derive(Readable)] pub struct SPfx<T> { a: T, #[speedy(constant_prefix = "X")] b: T, c: T }
#[derive(Readable)] #[repr(transparent)] pub struct STrans<T>(T);
#[derive(Readable)] #[speedy(tag_type = u8)] pub enum SEnum<T> { A(T, T), B { x: T, #[speedy(length_type = u8)] y: Vec<T>, z: T }, C }
macro_rules! fields { ($($n:ident [$($b:tt)*] { $($f:tt),* };)*) => { $(impl<T: Count $($b)*> Count for $n<T> { fn count(&self) -> usize { 0 $(+ self.$f.count())* } })* } }
fields! { SPlain [] { a, b, d }; SArr [] { a, b, c }; STup [] { 0, 1, 2 }; SLen [] { a, b, c }; SExpr [] { a, b, c, d }; SEof [] { a, b }; SMapEof [+ Ord] { a, b }; SSetLen [+ Ord] { b, c }; SDef [+ Default] { a, b, c, d }; SPfx [] { a, b, c }; STrans [] { 0 }; }
impl<T: Count> Count for SEnum<T> { fn count(&self) -> usize { match self { SEnum::A(x, y) => x.count() + y.count(), SEnum::B { x, y, z } => x.count() + y.count() + z.count(), SEnum::C => 0 } } }

/// Reads a `T` from up to `n` arbitrary bytes.
fn drops<T: Count + Readable<'static, Cx>>(n: usize) {
    expect("read");
    if std::mem::needs_drop::<T>() { expect("failed") }
    let e = endian();
    let b: &'static [u8] = byte_vec(choose(n + 1)).leak();
    let k = choose(SOURCES);
    reset();
    let heap = live_heap();
    {
        let (r, _) = read::<_, T>(k, Cx::new(e), b);
        match r {
            Ok(v) => {
                cover("read");
                let n = v.count();
                observe(n as u64);
                check(alive() == n, "something that was read is neither part of the value nor dropped, or part of the value was dropped");
                drop(v);
                check(alive() == 0, "dropping the value does not drop what it holds");
            }
            Err(x) => {
                cover("failed");
                observe(unsafe { BUILT } as u64);
                check(alive() == 0, "a failed read leaks what it had read");
                drop(x);
            }
        }
    }
    check(live_heap() == heap, "heap memory is leaked");
}
/// Reads a `T` of `n` elements (`width` bytes each) that fails at some element, ends early, or succeeds.
fn many<T: Count + Readable<'static, Cx>>(head: &[u8], n: usize, width: usize) {
    expect("read"); expect("failed");
    let mut b = head.to_vec();
    for i in 0..n { for j in 0..width { b.push(if width > 1 && j < width - 1 { (i >> (8 * j)) as u8 } else { (i % 200) as u8 }) } }
    let at = head.len() + width * [0, 1, n / 2, n - 2, n - 1][choose(5)] + width - 1;
    match choose(3) { 0 => {} 1 => b[at] = FAIL, _ => b.truncate(at) }
    let b: &'static [u8] = b.leak();
    let k = choose(SOURCES);
    reset();
    let heap = live_heap();
    let (r, _) = read::<_, T>(k, Cx::new(speedy::Endianness::LittleEndian), b);
    match r {
        Ok(v) => {
            cover("read");
            let n = v.count();
            observe(n as u64);
            check(alive() == n, "something that was read is neither part of the value nor dropped, or part of the value was dropped");
            drop(v);
            check(alive() == 0, "dropping the value does not drop what it holds");
        }
        Err(x) => {
            cover("failed");
            observe(unsafe { BUILT } as u64);
            check(alive() == 0, "a failed read leaks what it had read");
            drop(x);
        }
    }
    check(live_heap() == heap, "heap memory is leaked");
}
#[derive(Readable)] pub struct SLen16<T> { #[speedy(length_type = u16)] a: Vec<T>, b: T }
#[derive(Readable)] pub struct SRest<T> { #[speedy(length = ..)] a: Vec<T> }
fields! { SLen16 [] { a, b }; SRest [] { a }; }
pub mod large {
use super::*;
const U: u8 = 0;
crate::entries! {
    many_vec { many::<Vec<D>>(&[1, 1, U, U], 257, 1) }
    many_vec_m { many::<Vec<M>>(&[0, 4, U, U], 1024, 1) }
    many_vec_z { many::<Vec<Z>>(&[0, 4, U, U], 1024, 1) }
    many_slice { many::<Box<[D]>>(&[0, 1, U, U], 256, 1) }
    many_cow { many::<Cow<'static, [D]>>(&[128, U, U, U], 128, 1) }
    many_array { many::<[D; 300]>(&[], 300, 1) }
    many_array_m { many::<[M; 1025]>(&[], 1025, 1) }
    many_array_array { many::<[[D; 20]; 20]>(&[], 400, 1) }
    many_vec_array { many::<Vec<[D; 4]>>(&[100, U, U, U], 400, 1) }
    many_vec_tuple { many::<Vec<(u16, D)>>(&[0, 1, U, U], 256, 3) }
    many_bmap { many::<BTreeMap<u16, D>>(&[200, U, U, U], 200, 3) }
    many_hmap { many::<HashMap<u16, D, H>>(&[200, U, U, U], 200, 3) }
    many_bset { many::<BTreeSet<D>>(&[150, U, U, U], 150, 1) }
    many_len { many::<SLen16<D>>(&[255, U], 256, 1) }
    many_len_m { many::<SLen16<M>>(&[0, 3], 769, 1) }
    many_rest { many::<SRest<D>>(&[], 700, 1) }
    many_rest_m { many::<SRest<M>>(&[], 1100, 1) }
} }
const X: usize = if cfg!(feature = "thorough") { 2 } else { 0 };
macro_rules! all { ($($n:ident $t:ty, $len:expr;)*) => { crate::entries! { $($n { drops::<$t>($len + X) })* } } }
all! {
    item D, 1; vec Vec<D>, 8; vec_m Vec<M>, 8; vec_z Vec<Z>, 8; boxed Box<D>, 1; slice Box<[D]>, 7; slice_m Box<[M]>, 7; cow Cow<'static, [D]>, 7;
    array1 [D; 1], 2; array4 [D; 4], 5; array4_m [M; 4], 5; array_z [Z; 3], 4; array0 [D; 0], 1; array_array [[D; 2]; 2], 5; array_tuple [(D, D); 2], 5; array_vec [Vec<D>; 2], 11; array_opt [Option<D>; 3], 6; array_box [Box<M>; 3], 4;
    vec_array Vec<[D; 2]>, 9; vec_tuple Vec<(D, D)>, 9; vec_vec Vec<Vec<D>>, 14; vec_box Vec<Box<D>>, 7; vec_opt Vec<Option<D>>, 9; vec_res Vec<Result<D, D>>, 9;
    opt Option<D>, 2; opt_array Option<[D; 2]>, 4; res Result<D, (D, D)>, 4; range Range<D>, 3; range_inc RangeInclusive<D>, 3;
    tuple1 (D,), 2; tuple3 (D, u16, D), 5; tuple4 (D, M, Z, D), 5; tuple11 (D, M, D, u8, D, u8, D, u8, D, u8, D), 12;
    bmap BTreeMap<u8, D>, 10; bmap_key BTreeMap<D, u8>, 10; bmap_both BTreeMap<D, D>, 10; bset BTreeSet<D>, 8; hmap HashMap<u8, D, H>, 10; hmap_key HashMap<D, u8, H>, 10; hset HashSet<D, H>, 7;
    plain SPlain<D>, 11; arr SArr<D>, 7; tup STup<D>, 5; len SLen<D>, 6; len_m SLen<M>, 6; expr SExpr<D>, 7; eof SEof<D>, 4; map_eof SMapEof<D>, 6; set_len SSetLen<D>, 5; def SDef<D>, 8; pfx SPfx<D>, 5; trans STrans<D>, 2; vec_trans Vec<STrans<D>>, 7;
    enumeration SEnum<D>, 6; vec_enum Vec<SEnum<D>>, 10;
}
