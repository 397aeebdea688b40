//! P13: types that qualify for bulk transfer, or nearly, against hand-written twins that are transferred field by field.
use crate::props::{endian, Counted};
use crate::src::{self, PlainReader};
use crate::sx::*;
use crate::val::*;
use speedy::{Context, Endianness, IsEof, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::collections::*;

/// A type and its twin.
pub trait Slow: Copy + Val + 'static { type S: Copy + Val + 'static; fn slow(self) -> Self::S; fn fast(s: Self::S) -> Self; }
macro_rules! same { ($($t:ty),*) => { $(impl Slow for $t { type S = $t; fn slow(self) -> $t { self } fn fast(s: $t) -> $t { s } })* } }
same! { u8, i8, u16, i16, u32, u64, i64, u128, f32, f64, bool, char, (), [u16; 2], [u8; 3] }
/// The twin of a struct.
#[derive(Copy, Clone)] pub struct W<T>(T);
impl<T: Val> Val for W<T> { fn gen() -> Self { W(T::gen()) } fn enc(&self, o: &mut Out) { self.0.enc(o) } }
macro_rules! shape { ([$($a:tt)*] $n:ident [$($f:ident: $t:tt),*]) => {
    #[derive(Readable, Writable, Copy, Clone)] $($a)* pub struct $n { $($f: $t),* }
    impl Val for $n { fn gen() -> Self { $n { $($f: Val::gen()),* } } fn enc(&self, o: &mut Out) { $({ let x = self.$f; x.enc(o) })* } }
    impl Slow for $n { type S = W<$n>; fn slow(self) -> W<$n> { W(self) } fn fast(s: W<$n>) -> $n { s.0 } }
    impl<'a, C: Context> Readable<'a, C> for W<$n> {
        fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(W($n { $($f: <$t as Slow>::fast(r.read_value::<<$t as Slow>::S>()?)),* })) }
        fn minimum_bytes_needed() -> usize { 0 $(+ <<$t as Slow>::S as Readable<'a, C>>::minimum_bytes_needed())* }
    }
    impl<C: Context> Writable<C> for W<$n> {
        fn write_to<T: ?Sized + Writer<C>>(&self, w: &mut T) -> Result<(), C::Error> { $({ let x = self.0.$f; w.write_value(&x.slow())?; })* let _ = w; Ok(()) }
    }
} }
include!("p13_types.rs");

pub trait Io: Val + Readable<'static, Endianness> + Writable<Endianness> {}
impl<T: Val + Readable<'static, Endianness> + Writable<Endianness>> Io for T {}
pub const ALL: usize = 7;
/// (the sources that `few` uses are read with less code)
fn read<T: Io>(few: bool, k: usize, e: Endianness, b: &'static [u8]) -> (Result<T, speedy::Error>, Option<usize>) {
    if !few { return src::read::<_, T>(k, e, b) }
    match k {
        0 => { let (r, n) = T::read_with_length_from_buffer_with_ctx(e, b); (r, Some(n)) }
        1 => { let mut s = Counted { b, pos: 0 }; let r = T::read_from_stream_unbuffered_with_ctx(e, &mut s); (r, Some(s.pos)) }
        _ => { let mut r = PlainReader { ctx: e, b, pos: 0 }; let v = T::read_from(&mut r); (v, Some(r.pos)) }
    }
}
fn write<T: Io>(few: bool, k: usize, e: Endianness, v: &T) -> Result<Vec<u8>, speedy::Error> {
    if !few { return src::write(k, e, v) }
    match k { 0 => v.write_to_vec_with_ctx(e), _ => { let mut b = Vec::new(); v.write_to_stream_with_ctx(e, &mut b)?; Ok(b) } }
}
fn values<X: Io, Y: Io>(few: bool, x: X, y: Y) {
    let e = endian();
    let k = choose(if few { 2 } else { src::SINKS });
    let b = match (write(few, k, e, &x), write(few, k, e, &y)) {
        (Ok(a), Ok(b)) => { check(eq(&a, &b), "bulk and field-by-field transfer write different bytes"); b }
        _ => { check(false, "a value cannot be written"); return }
    };
    check(Writable::<Endianness>::bytes_needed(&x).ok() == Some(b.len()), "the size of a value is wrong");
    observe_bytes(&b);
    let n = b.len();
    let (r, used) = read::<X>(few, choose(if few { 3 } else { src::SOURCES }), e, b.leak());
    match r { Ok(v) => check(eq(&canon(&v), &canon(&y)), "another value is read than was written"), Err(_) => check(false, "what was written cannot be read") }
    if let Some(u) = used { check(u == n, "the number of bytes consumed is wrong") }
    cover("written");
}
fn bytes_of<X: Io, Y: Io>(few: bool, n: usize) {
    let e = endian();
    let b: &'static [u8] = byte_vec(choose(n + 1)).leak();
    let k = choose(if few { 3 } else { src::SOURCES });
    let (x, u) = read::<X>(few, k, e, b);
    let (y, w) = read::<Y>(few, k, e, b);
    match (x, y) {
        (Ok(x), Ok(y)) => { cover("read"); let c = canon(&y); observe_bytes(&c); check(eq(&canon(&x), &c), "bulk and field-by-field transfer read different values"); check(u == w, "bulk and field-by-field transfer consume different lengths") }
        (Err(x), Err(y)) => check(x.is_eof() == y.is_eof(), "bulk and field-by-field transfer report different errors"),
        _ => check(false, "bulk and field-by-field transfer disagree on what is valid"),
    }
}
fn both<X: Io, Y: Io>(few: bool, bytes: bool, n: usize, x: impl Fn() -> (X, Y)) {
    if bytes { bytes_of::<X, Y>(few, n) } else { let (x, y) = x(); values(few, x, y) }
}
fn items<D: Slow>() -> Vec<D> { gen_vec(2) }
fn slows<D: Slow>(v: &[D]) -> Vec<D::S> { v.iter().map(|x| x.slow()).collect() }
fn shapes_few<D: Slow + Io>() where D::S: Io {
    expect("written"); expect("read");
    let n = std::mem::size_of::<D>().min(17);
    // (types of no bytes: the length field would be the number of steps)
    let z = if n == 0 { 3 } else { 1 };
    let b = choose(2) == 1;
    match choose(if cfg!(feature = "thorough") { 4 } else { 3 }) {
        0 => both(true, b, n + 1, || { let x = D::gen(); (x, x.slow()) }),
        1 => both(true, b, if z == 3 { 3 } else { 5 + 2 * n }, || { let v = items::<D>(); let w = slows(&v); (v, w) }),
        2 => both(true, b, 1 + 2 * n, || { let v = [D::gen(), D::gen()]; (v, [v[0].slow(), v[1].slow()]) }),
        _ => both(true, b, if z == 3 { 3 } else { 5 + 2 * n }, || { let v = items::<D>(); let w = slows(&v); (Cow::<'static, [D]>::Owned(v), Cow::<'static, [D::S]>::Owned(w)) }),
    }
}
#[derive(Readable, Writable, Clone)] pub struct Nest<T> { h: u16, x: T, v: Vec<T>, #[speedy(length_type = u8)] s: Vec<T> }
impl<T: Val> Val for Nest<T> { fn gen() -> Self { loop {} } fn enc(&self, o: &mut Out) { self.h.enc(o); self.x.enc(o); self.v.enc(o); self.s.enc(o) } }
#[derive(Readable, Writable, Clone)] pub struct Tail<T> { h: u8, #[speedy(length = ..)] v: Vec<T> }
impl<T: Val> Val for Tail<T> { fn gen() -> Self { loop {} } fn enc(&self, o: &mut Out) { self.h.enc(o); self.v.enc(o) } }
#[derive(Readable, Writable, Clone)] pub struct Expr<T> { n: u8, #[speedy(length = n)] v: Vec<T>, t: u8 }
impl<T: Val> Val for Expr<T> { fn gen() -> Self { loop {} } fn enc(&self, o: &mut Out) { self.n.enc(o); self.v.enc(o); self.t.enc(o) } }
/// (with every container and source only in the thorough tier)
fn shapes_some<D: Slow + Io>() where D::S: Io { if cfg!(feature = "thorough") { shapes_full::<D>() } else { shapes_few::<D>() } }
fn shapes_full<D: Slow + Io>() where D::S: Io {
    expect("written"); expect("read");
    let n = std::mem::size_of::<D>();
    let b = choose(2) == 1;
    match choose(12) {
        0 => both(false, b, n + 1, || { let x = D::gen(); (x, x.slow()) }),
        1 => both(false, b, 5 + 2 * n, || { let v = items::<D>(); let w = slows(&v); (v, w) }),
        2 => both(false, b, 1 + 2 * n, || { let v = [D::gen(), D::gen()]; (v, [v[0].slow(), v[1].slow()]) }),
        3 => both(false, b, 5 + 2 * n, || { let v = items::<D>(); let w = slows(&v); (Cow::<'static, [D]>::Owned(v), Cow::<'static, [D::S]>::Owned(w)) }),
        4 => both(false, b, 5 + 2 * n, || { let v = items::<D>(); let w = slows(&v); (v.into_boxed_slice(), w.into_boxed_slice()) }),
        5 => both(false, b, n + 2, || if choose(2) == 0 { (None, None) } else { let x = D::gen(); (Some(x), Some(x.slow())) }),
        6 => both(false, b, n + 3, || { let x = D::gen(); let (a, z) = (any_u8(), any_u8()); ((a, x, z), (a, x.slow(), z)) }),
        7 => both(false, b, 7 + 2 * n, || { let v = items::<D>(); let w = slows(&v); let k: [u8; 2] = bytes(); (k.into_iter().zip(v).collect::<BTreeMap<u8, D>>(), k.into_iter().zip(w).collect::<BTreeMap<u8, D::S>>()) }),
        8 => both(false, b, 5 + 2 * n, || { let v = [D::gen(), D::gen()]; (vec![v], vec![[v[0].slow(), v[1].slow()]]) }),
        9 => both(false, b, 8 + 3 * n, || { let (h, x) = (any_u16(), D::gen()); let v = items::<D>(); let w = slows(&v); (Nest { h, x, v: v.clone(), s: v }, Nest { h, x: x.slow(), v: w.clone(), s: w }) }),
        10 => both(false, b, 2 + 2 * n, || { let v = items::<D>(); let w = slows(&v); (Tail { h: 3, v }, Tail { h: 3, v: w }) }),
        _ => both(false, b, 3 + 2 * n, || { let v = items::<D>(); let w = slows(&v); let k = v.len() as u8; (Expr { n: k, v, t: 7 }, Expr { n: k, v: w, t: 7 }) }),
    }
}

/// An element that is transferred on its own.
#[derive(Copy, Clone)] pub struct Alone<T>(T);
impl<T: Val> Val for Alone<T> { fn gen() -> Self { Alone(T::gen()) } fn enc(&self, o: &mut Out) { self.0.enc(o) } }
impl<'a, C: Context, T: Readable<'a, C>> Readable<'a, C> for Alone<T> {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(Alone(r.read_value::<T>()?)) }
    fn minimum_bytes_needed() -> usize { T::minimum_bytes_needed() }
}
impl<C: Context, T: Writable<C>> Writable<C> for Alone<T> { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_value(&self.0) } }
/// Sequences of odd and longer lengths.
pub fn runs<D: Io + Copy + 'static>() {
    expect("written"); expect("read");
    fn alone<D: Copy>(v: &[D]) -> Vec<Alone<D>> { v.iter().map(|x| Alone(*x)).collect() }
    fn array<D: Io + Copy + 'static, const N: usize>(b: bool) { both::<[D; N], [Alone<D>; N]>(true, b, 0, || { let v: Vec<D> = gen(N); let w = alone(&v); (v.try_into().ok().unwrap(), w.try_into().ok().unwrap()) }) }
    fn gen<D: Val>(n: usize) -> Vec<D> { (0..n).map(|_| D::gen()).collect() }
    const LENS: &[usize] = if cfg!(feature = "thorough") { &[3, 4, 5, 7, 9, 17, 33] } else { &[3, 5, 9] };
    let n = LENS[choose(LENS.len())];
    match choose(4) {
        0 => { let v = gen::<D>(n); let w = alone(&v); values(true, v, w) }
        1 => { let v = gen::<D>(n); let w = alone(&v); values(true, v.into_boxed_slice(), w.into_boxed_slice()) }
        2 => { let v = gen::<D>(n); let w = alone(&v); values(true, Cow::<'static, [D]>::Owned(v), Cow::<'static, [Alone<D>]>::Owned(w)) }
        _ => { match n { 3 => array::<D, 3>(false), 5 => array::<D, 5>(false), 7 => array::<D, 7>(false), _ => array::<D, 9>(false) } }
    }
    cover("read");
}
#[cfg(feature = "p13a")] pub mod odd { use super::*; crate::entries! {
    odd_u8 { runs::<u8>() } odd_i8 { runs::<i8>() } odd_u16 { runs::<u16>() } odd_i16 { runs::<i16>() } odd_u32 { runs::<u32>() } odd_u64 { runs::<u64>() } odd_i64 { runs::<i64>() } odd_u128 { runs::<u128>() } odd_f32 { runs::<f32>() } odd_f64 { runs::<f64>() }
    odd_c12 { runs::<C12>() } odd_p12 { runs::<P12>() } odd_t2 { runs::<T2>() } odd_a { runs::<[u16; 2]>() }
} }
