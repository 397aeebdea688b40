//! P11: length types and length expressions.
use crate::props::{endian, is_be};
use crate::src::*;
use crate::sx::*;
use crate::val::Out;
use speedy::{Endianness, IsEof, Readable, Writable};
use std::borrow::Cow;
use std::collections::*;

#[derive(Copy, Clone, PartialEq)]
pub enum Lt { U7, U8, U16, U32, U64, V }
impl Lt {
    fn max(self) -> usize { match self { Lt::U7 => 127, Lt::U8 => 255, Lt::U16 => 65535, Lt::U32 => u32::MAX as usize, _ => usize::MAX } }
    fn put(self, n: usize, o: &mut Out) { match self { Lt::U7 | Lt::U8 => o.u8(n as u8), Lt::U16 => o.u16(n as u16), Lt::U32 => o.u32(n as u32), Lt::U64 => o.u64(n as u64), Lt::V => o.varint(n as u64) } }
    fn get(self, b: &[u8], be: bool) -> Option<(u64, usize)> {
        let w = match self { Lt::U7 | Lt::U8 => 1, Lt::U16 => 2, Lt::U32 => 4, Lt::U64 => 8, Lt::V => 1 + b.first()?.leading_ones() as usize };
        if b.len() < w { return None }
        let num = |b: &[u8], be: bool| (0..b.len()).fold(0u64, |v, i| v | (b[i] as u64) << (8 * if be { b.len() - 1 - i } else { i } as u32));
        if self != Lt::V { return Some((num(&b[..w], be), w)) }
        let low = num(&b[1..w], false);
        Some((if w > 8 { low } else { low | ((b[0] & (0x7F >> (w - 1) as u32)) as u64) << (8 * (w - 1) as u32) }, w))
    }
}
/// A container of `n` elements, of which the `i`-th is determined by `i`, `x` and `y`.
pub trait Cont<'a>: Sized {
    fn make(n: usize, x: u8, y: u8) -> Self;
    /// the elements, one by one
    fn put(n: usize, x: u8, y: u8, o: &mut Out);
    fn count(&self) -> usize;
    /// what has been read is what `make` makes
    fn is(&self, n: usize, x: u8, y: u8) -> bool;
    /// the size of an element
    const W: usize;
}
/// ends are x and y, what is between depends on the position
fn at(i: usize, n: usize, x: u8, y: u8) -> u8 { if i == 0 { x } else if i + 1 == n { y } else { (i ^ (i >> 8)) as u8 & 0x7F } }
fn raw(n: usize, x: u8, y: u8) -> Vec<u8> { (0..n).map(|i| at(i, n, x, y)).collect() }
fn same_bytes(b: &[u8], n: usize, x: u8, y: u8) -> bool {
    if b.len() != n { return false }
    if n < 2 { return n == 0 || b[0] == x }
    b[0] == x && b[n - 1] == y && (1..n - 1).all(|i| b[i] == (i ^ (i >> 8)) as u8 & 0x7F)
}
macro_rules! bytes_like { ($([$($g:tt)*] $t:ty, $text:literal, |$v:ident| $mk:expr, |$s:ident| $b:expr;)*) => { $(impl<'a $($g)*> Cont<'a> for $t {
    fn make(n: usize, x: u8, y: u8) -> Self { let $v = if $text { raw(n, x & 0x7F, y & 0x7F) } else { raw(n, x, y) }; $mk }
    fn put(n: usize, x: u8, y: u8, o: &mut Out) { o.raw(&if $text { raw(n, x & 0x7F, y & 0x7F) } else { raw(n, x, y) }) }
    fn count(&self) -> usize { let $s = self; ($b).len() }
    fn is(&self, n: usize, x: u8, y: u8) -> bool { let $s = self; if $text { same_bytes($b, n, x & 0x7F, y & 0x7F) } else { same_bytes($b, n, x, y) } }
    const W: usize = 1;
})* } }
fn st(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
bytes_like! {
    [] Vec<u8>, false, |v| v, |s| &s[..];
    [] String, true, |v| st(v), |s| s.as_bytes();
    [] Cow<'a, [u8]>, false, |v| Cow::Owned(v), |s| &s[..];
    [] Cow<'a, str>, true, |v| Cow::Owned(st(v)), |s| s.as_bytes();
    [] &'a [u8], false, |v| v.leak(), |s| &s[..];
    [] &'a str, true, |v| st(v).leak(), |s| s.as_bytes();
}
macro_rules! items_like { ($([$($g:tt)*] $t:ty, $w:literal, $count:expr, |$n:ident, $x:ident, $y:ident| $mk:expr, |$i:ident, $o:ident| $put:expr;)*) => { $(impl<'a $($g)*> Cont<'a> for $t {
    fn make($n: usize, $x: u8, $y: u8) -> Self { $mk }
    fn put($n: usize, $x: u8, $y: u8, $o: &mut Out) { for $i in 0..$n { $put } let _ = ($x, $y); }
    fn count(&self) -> usize { ($count)(self) }
    fn is(&self, $n: usize, $x: u8, $y: u8) -> bool { let m: Self = $mk; *self == m }
    const W: usize = $w;
})* } }
items_like! {
    [] Vec<u16>, 2, |s: &Vec<u16>| s.len(), |n, x, y| (0..n).map(|i| at(i, n, x, y) as u16 | 0x5500).collect(), |i, o| o.u16(at(i, n, x, y) as u16 | 0x5500);
    [] Vec<bool>, 1, |s: &Vec<bool>| s.len(), |n, x, y| (0..n).map(|i| (at(i, n, x, y) & 1) != 0).collect(), |i, o| o.u8(at(i, n, x, y) & 1);
    [] Cow<'a, [u16]>, 2, |s: &Cow<'a, [u16]>| s.len(), |n, x, y| (0..n).map(|i| at(i, n, x, y) as u16 | 0x5500).collect(), |i, o| o.u16(at(i, n, x, y) as u16 | 0x5500);
    [] BTreeSet<u16>, 2, |s: &BTreeSet<u16>| s.len(), |n, x, y| (0..n).map(|i| i as u16 * 3).collect(), |i, o| o.u16(i as u16 * 3);
    [] BTreeMap<u16, u8>, 3, |s: &BTreeMap<u16, u8>| s.len(), |n, x, y| (0..n).map(|i| (i as u16, at(i, n, x, y))).collect(), |i, o| { o.u16(i as u16); o.u8(at(i, n, x, y)) };
}
/// A struct with a field in front, the container, and a field behind.
pub trait Lim<'a>: Sized { type C: Cont<'a>; const LT: Lt; const BEFORE: usize = 1; fn wrap(h: u8, c: Self::C, t: u8) -> Self; fn parts(self) -> (u8, Self::C, u8); }
macro_rules! lims { ($($n:ident [$($g:tt)*] $k:ident $lt:tt [$($t:tt)*];)*) => { $(
    #[derive(Readable, Writable)] pub struct $n<$($g)*> { h: u8, #[speedy(length_type = $lt)] c: $($t)*, t: u8 }
    lim! { [$($g)*] $n $k [$($t)*] }
)* } }
macro_rules! lim { ([] $n:ident $k:ident [$($t:tt)*]) => { lim! { @ ['a] $n [$n] $k [$($t)*] } }; (['a] $n:ident $k:ident [$($t:tt)*]) => { lim! { @ ['a] $n [$n<'a>] $k [$($t)*] } };
    (@ [$($g:tt)*] $n:ident [$s:ty] $k:ident [$($t:tt)*]) => { impl<$($g)*> Lim<'a> for $s { type C = $($t)*; const LT: Lt = Lt::$k; fn wrap(h: u8, c: $($t)*, t: u8) -> Self { $n { h, c, t } } fn parts(self) -> (u8, Self::C, u8) { (self.h, self.c, self.t) } } } }
lims! {
    Vec7 [] U7 u7 [Vec<u8>]; Str7 [] U7 u7 [String]; Wide7 [] U7 u7 [Vec<u16>]; Set7 [] U7 u7 [BTreeSet<u16>]; Cow7 ['a] U7 u7 [Cow<'a, [u8]>]; CowStr7 ['a] U7 u7 [Cow<'a, str>]; Ref7 ['a] U7 u7 [&'a [u8]]; RefStr7 ['a] U7 u7 [&'a str];
    Vec8 [] U8 u8 [Vec<u8>]; Str8 [] U8 u8 [String]; Wide8 [] U8 u8 [Vec<u16>]; Bools8 [] U8 u8 [Vec<bool>]; Set8 [] U8 u8 [BTreeSet<u16>]; Map8 [] U8 u8 [BTreeMap<u16, u8>]; Cow8 ['a] U8 u8 [Cow<'a, [u8]>]; CowW8 ['a] U8 u8 [Cow<'a, [u16]>]; CowStr8 ['a] U8 u8 [Cow<'a, str>]; Ref8 ['a] U8 u8 [&'a [u8]]; RefStr8 ['a] U8 u8 [&'a str];
    Vec16 [] U16 u16 [Vec<u8>]; Str16 [] U16 u16 [String]; Wide16 [] U16 u16 [Vec<u16>]; Cow16 ['a] U16 u16 [Cow<'a, [u8]>]; CowStr16 ['a] U16 u16 [Cow<'a, str>]; Ref16 ['a] U16 u16 [&'a [u8]]; RefStr16 ['a] U16 u16 [&'a str];
    Vec32 [] U32 u32 [Vec<u8>]; Wide64 [] U64 u64 [Vec<u16>]; Str64 [] U64 u64 [String]; VecV [] V u64_varint [Vec<u8>]; StrV [] V u64_varint [String]; CowV ['a] V u64_varint [Cow<'a, [u16]>]; RefV ['a] V u64_varint [&'a [u8]]; SetV [] V u64_varint [BTreeSet<u16>];
}
/// Writes and reads a container with as many elements as one of `sizes` says.
fn limit<'a, S: Lim<'a> + Readable<'a, Endianness> + Writable<Endianness>>(sizes: &[usize], sources: usize) {
    expect("fits");
    let e = endian();
    let n = sizes[choose(sizes.len())];
    let (x, y, h, t) = (any_u8(), any_u8(), any_u8(), any_u8());
    let v = S::wrap(h, S::C::make(n, x, y), t);
    let sink = choose(SINKS);
    if n > S::LT.max() {
        cover("too long");
        if sink == 2 {
            let mut s = Vec::new();
            check(v.write_to_stream_with_ctx(e, &mut s).is_err(), "a length that does not fit its type is written");
            check(s.len() <= 1, "something is written of a container that is too long");
        } else {
            check(write(sink, e, &v).is_err(), "a length that does not fit its type is written");
        }
        check(Writable::<Endianness>::bytes_needed(&v).is_err(), "the size of a container that is too long is known");
        return;
    }
    cover("fits");
    let mut o = Out::new(is_be(e));
    o.u8(h);
    S::LT.put(n, &mut o);
    S::C::put(n, x, y, &mut o);
    o.u8(t);
    let b: &'a [u8] = o.b.leak();
    match write(sink, e, &v) {
        Ok(w) => check(w == b, "the length or the elements are written wrongly"),
        Err(_) => check(false, "a container that fits its length type cannot be written"),
    }
    // one byte less, everything, or more
    let d = choose(3);
    let long: &'a [u8] = if d == 2 { let mut l = b.to_vec(); l.push(0x41); l.leak() } else { b };
    let k = choose(sources);
    let (r, used) = read::<_, S>(k, e, &long[..if d == 0 { b.len() - 1 } else { long.len() }]);
    match r {
        Ok(s) => {
            check(d != 0, "fewer elements are read than the length says");
            let (h2, c, t2) = s.parts();
            check(c.count() == n, "the number of elements read is not the length");
            check(h2 == h && t2 == t && c.is(n, x, y), "the elements read are wrong");
            if let Some(u) = used { check(u == b.len(), "the number of bytes consumed is wrong") }
        }
        Err(x) => { check(d == 0, "a container is rejected"); check(x.is_eof() || k < 2 && b.len() <= S::minimum_bytes_needed(), "the end of input is reported as another error") }
    }
}
/// Reads a container of bytes with an arbitrary length field from a few bytes.
fn arbitrary<'a, S: Lim<'a> + Readable<'a, Endianness>>(n: usize, sources: usize, text: bool) {
    expect("read"); expect("short");
    let e = endian();
    let b: &'a [u8] = byte_vec(choose(n + 1)).leak();
    let k = choose(sources);
    let (r, used) = read::<_, S>(k, e, b);
    let want = if b.is_empty() { None } else { S::LT.get(&b[1..], is_be(e)).map(|(len, w)| (len, w + 1)) };
    match (want, r) {
        (Some((len, w)), r) if len as usize <= S::LT.max() && len <= 100 && (w + len as usize * S::C::W) < b.len() => {
            let end = w + len as usize * S::C::W;
            match r {
                Ok(s) => {
                    cover("read");
                    let (h, c, t) = s.parts();
                    observe(len);
                    check(h == b[0] && t == b[end] && c.count() == len as usize, "the length is not honoured");
                    if let Some(u) = used { check(u == end + 1, "the number of bytes consumed is wrong") }
                }
                Err(_) => check(text && std::str::from_utf8(&b[w..end]).is_err(), "a valid length is rejected"),
            }
        }
        (_, Ok(_)) => check(false, "a length beyond the end of input, or of its type, is accepted"),
        (Some((len, _)), Err(x)) if len > S::LT.max() as u64 => check(!x.is_eof(), "a length outside its type is reported as the end of input"),
        (_, Err(x)) => { cover("short"); check(x.is_eof() || k < 2 && b.len() < S::minimum_bytes_needed() || text || S::LT.max() > usize::MAX >> 1, "the end of input is reported as another error") }
    }
}
// ---------------------------------------------------------------- expressions
fn twice(n: u8) -> usize { n as usize * 2 }
fn wide(n: &u16) -> usize { *n as usize + 1 }
pub trait Ex<'a>: Sized {
    type C: Cont<'a>;
    /// width of the field that tells the length (unsigned, in the byte order)
    const NW: usize;
    const NAME: &'static str;
    /// the number of elements the expression denotes for this value of the field
    fn want(n: u64) -> Option<u64>;
    fn wrap(n: u64, c: Self::C, t: u8) -> Self;
    fn parts(self) -> (u64, Self::C, u8);
}
macro_rules! exprs { ($($s:ident [$($g:tt)*] $n:ident: $nt:ident $nw:literal, [$($ex:tt)*] [$($t:tt)*], |$m:ident| $want:expr;)*) => { $(
    #[derive(Readable, Writable)] pub struct $s<$($g)*> { $n: $nt, #[speedy(length = $($ex)*)] data: $($t)*, t: u8 }
    ex! { [$($g)*] $s $n $nt $nw [$($t)*] $m $want }
)* } }
macro_rules! ex { ([] $s:ident $n:ident $nt:ident $nw:literal [$($t:tt)*] $m:ident $want:expr) => { ex! { @ [$s] $s $n $nt $nw [$($t)*] $m $want } }; (['a] $s:ident $n:ident $nt:ident $nw:literal [$($t:tt)*] $m:ident $want:expr) => { ex! { @ [$s<'a>] $s $n $nt $nw [$($t)*] $m $want } };
    (@ [$ty:ty] $s:ident $n:ident $nt:ident $nw:literal [$($t:tt)*] $m:ident $want:expr) => { impl<'a> Ex<'a> for $ty { type C = $($t)*; const NW: usize = $nw; const NAME: &'static str = "data"; fn want($m: u64) -> Option<u64> { $want } fn wrap(n: u64, c: $($t)*, t: u8) -> Self { $s { $n: n as $nt, data: c, t } } fn parts(self) -> (u64, Self::C, u8) { (self.$n as u64, self.data, self.t) } } } }
exprs! {
    EVec [] n: u8 1, [n] [Vec<u8>], |n| Some(n); EStr [] n: u8 1, [n] [String], |n| Some(n); EWide [] n: u8 1, [n / 2] [Vec<u16>], |n| Some(n / 2); ESub [] n: u16 2, [n >> 8] [Vec<bool>], |n| Some(n >> 8);
    ECow ['a] n: u16 2, [n] [Cow<'a, [u8]>], |n| Some(n); ECowW ['a] n: u32 4, [n] [Cow<'a, [u16]>], |n| Some(n); ECowStr ['a] n: usize 8, [n] [Cow<'a, str>], |n| Some(n); ERef ['a] n: u32 4, [n] [&'a [u8]], |n| Some(n); ERefStr ['a] n: usize 8, [n] [&'a str], |n| Some(n);
    EMap [] n: u8 1, [n / 4] [BTreeMap<u16, u8>], |n| Some(n / 4); ESet [] n: u32 4, [n] [BTreeSet<u16>], |n| Some(n); EConst [] n: u8 1, [3_usize] [Vec<u8>], |n| { let _ = n; Some(3) };
    EFull [] n: usize 8, [n] [Vec<u16>], |n| Some(n); EBools [] n: u32 4, [n] [Vec<bool>], |n| Some(n);
}
#[derive(Readable, Writable)] pub struct ECall { n: u8, #[speedy(length = twice( n.clone() ))] data: Vec<u8>, m: u16, #[speedy(length = wide( &m.clone() ))] more: String, t: u8 }
#[derive(Readable, Writable)] pub struct ETwo { a: u8, b: u8, #[speedy(length = a.clone() as usize + b.clone() as usize)] data: Vec<u8>, #[speedy(length = b)] more: Vec<u16> }
#[derive(Readable, Writable)] pub struct ETup(u8, #[speedy(length = t0)] Vec<u8>, u8);
#[derive(Readable, Writable)] #[speedy(tag_type = u8)] pub enum EEnum { A { n: u8, #[speedy(length = n)] data: Vec<u8> }, B(u8, #[speedy(length = t0)] String) }
#[derive(Readable)] pub struct ESigned { n: i8, #[speedy(length = n)] data: Vec<u8> }
#[derive(Readable)] pub struct EHuge { n: u64, #[speedy(length = n)] data: Vec<u64> }
#[derive(Readable)] pub struct EHugeRef<'a> { n: u64, #[speedy(length = n)] data: &'a [u32] }
/// Writes a container whose length is, or is not, the expression's value.
fn expr_write<'a, S: Ex<'a> + Writable<Endianness>>() {
    expect("equal"); expect("different");
    let e = endian();
    let n = if S::NW == 1 { any_u8() as u64 } else if S::NW == 2 { any_u16() as u64 } else if S::NW == 4 { any_u32() as u64 } else { any_u64() };
    let (len, x, y, t) = (choose(4), any_u8(), any_u8(), any_u8());
    let v = S::wrap(n, S::C::make(len, x, y), t);
    let mut o = Out::new(is_be(e));
    match S::NW { 1 => o.u8(n as u8), 2 => o.u16(n as u16), 4 => o.u32(n as u32), _ => o.u64(n) }
    let front = o.b.len();
    S::C::put(len, x, y, &mut o);
    o.u8(t);
    if S::want(n) == Some(len as u64) {
        cover("equal");
        match write(choose(SINKS), e, &v) { Ok(w) => check(eq(&w, &o.b), "the elements are written wrongly"), Err(_) => check(false, "a length that is right is rejected") }
    } else {
        cover("different");
        let mut s = Vec::new();
        match v.write_to_stream_with_ctx(e, &mut s) {
            Ok(_) => check(false, "a length that is not what its expression says is written"),
            Err(x) => check(x.to_string() == "the length of 'data' is not the same as its 'length' attribute", "a wrong length is another error"),
        }
        check(eq(&s, &o.b[..front]), "something is written of a container of the wrong length");
        check(write(choose(SINKS), e, &v).is_err() && Writable::<Endianness>::bytes_needed(&v).is_err(), "a length that is not what its expression says is written");
    }
}
/// Reads a container of as many elements as the expression says from a few bytes.
fn expr_read<'a, S: Ex<'a> + Readable<'a, Endianness>>(extra: usize, sources: usize, set: bool, text: bool) {
    expect("read"); expect("short");
    let e = endian();
    let b: &'a [u8] = byte_vec(choose(S::NW + extra + 1)).leak();
    let k = choose(sources);
    let (r, used) = read::<_, S>(k, e, b);
    let n = if b.len() < S::NW { None } else { let n = (0..S::NW).fold(0u64, |v, i| v | (b[i] as u64) << (8 * if is_be(e) { S::NW - 1 - i } else { i } as u32)); S::want(n).map(|m| (n, m)) };
    match (n, r) {
        (Some((n, m)), r) if m <= 100 && S::NW + m as usize * S::C::W < b.len() => {
            let end = S::NW + m as usize * S::C::W;
            match r {
                Ok(s) => {
                    cover("read");
                    let (n2, c, t) = s.parts();
                    check(n2 == n && t == b[end] && (if set { c.count() <= m as usize } else { c.count() == m as usize }), "the length is not honoured");
                    if let Some(u) = used { check(u == end + 1, "the number of bytes consumed is wrong") }
                }
                Err(_) => check(text && std::str::from_utf8(&b[S::NW..end]).is_err(), "a valid length is rejected"),
            }
        }
        (_, Ok(_)) => check(false, "a length beyond the end of input is accepted"),
        (_, Err(x)) => { cover("short"); check(x.is_eof() || k < 2 && b.len() < S::minimum_bytes_needed() || text || S::NW == 8, "the end of input is reported as another error") }
    }
}
/// A container of elements without any bytes, too long for the length field every container has by default.
fn too_long<T: Writable<Endianness>>(v: T, sized: bool) {
    expect("done");
    let e = endian();
    let mut s = Vec::new();
    check(v.write_to_stream_with_ctx(e, &mut s).is_err(), "a length that does not fit its field is written");
    check(s.is_empty(), "something is written of a container that is too long");
    // (the size of a plain container is the sum of its elements' sizes, which takes a step for each of them)
    if sized {
        check(Writable::<Endianness>::bytes_needed(&v).is_err(), "the size of a container that is too long is known");
        check(v.write_to_vec_with_ctx(e).is_err(), "a length that does not fit its field is written");
    }
    cover("done");
}
fn units(n: usize) -> Vec<()> { let mut v = vec![]; unsafe { v.set_len(n) } v }
#[derive(Readable, Writable)] pub struct Units { v: Vec<()> }
#[derive(Readable, Writable)] pub struct Units16 { #[speedy(length_type = u16)] v: Vec<()> }
#[derive(Readable, Writable)] pub struct Units8 { #[speedy(length_type = u8)] v: Vec<()> }
fn long() -> usize { [1usize << 32, (1 << 32) + 1, (1 << 32) + 70000, 1 << 40][choose(4)] }
const S7: &[usize] = &[0, 1, 126, 127, 128, 129, 255, 256, 383];
const S8: &[usize] = &[0, 2, 127, 128, 254, 255, 256, 257, 511];
const S16: &[usize] = &[255, 256, 65535, 65536];
const SV: &[usize] = &[0, 1, 127, 128, 300, 16383, 16384];
macro_rules! all { (limits { $($n:ident $t:ident $s:ident $k:expr;)* } arbitrary { $($an:ident $at:ident $len:expr, $ak:expr, $text:literal;)* } exprs { $($wn:ident $rn:ident $et:ident $el:expr, $ek:expr, $set:literal, $etext:literal;)* } $($rest:tt)*) => { crate::entries! {
    $($n { limit::<$t>($s, $k) })*
    $($an { arbitrary::<$at>($len, $ak, $text) })*
    $($wn { expr_write::<$et>() } $rn { expr_read::<$et>($el, $ek, $set, $etext) })*
    $($rest)*
} } }
all! {
    limits {
        vec7 Vec7 S7 SOURCES; str7 Str7 S7 SOURCES; wide7 Wide7 S7 SOURCES; set7 Set7 S7 SOURCES; cow7 Cow7 S7 SOURCES; cowstr7 CowStr7 S7 SOURCES; ref7 Ref7 S7 1; refstr7 RefStr7 S7 1;
        vec8 Vec8 S8 SOURCES; str8 Str8 S8 SOURCES; wide8 Wide8 S8 SOURCES; bools8 Bools8 S8 SOURCES; set8 Set8 S8 SOURCES; map8 Map8 S8 SOURCES; cow8 Cow8 S8 SOURCES; coww8 CowW8 S8 SOURCES; cowstr8 CowStr8 S8 SOURCES; ref8 Ref8 S8 1; refstr8 RefStr8 S8 1;
        vec16 Vec16 S16 2; str16 Str16 S16 2; wide16 Wide16 S16 2; cow16 Cow16 S16 2; cowstr16 CowStr16 S16 2; ref16 Ref16 S16 1; refstr16 RefStr16 S16 1;
        vec32 Vec32 SV SOURCES; wide64 Wide64 SV SOURCES; str64 Str64 SV SOURCES; vecv VecV SV SOURCES; strv StrV SV SOURCES; cowv CowV SV SOURCES; refv RefV SV 1; setv SetV S7 SOURCES;
    }
    arbitrary {
        any_vec7 Vec7 5, SOURCES, false; any_str7 Str7 5, SOURCES, true; any_wide7 Wide7 7, SOURCES, false; any_cow7 Cow7 5, SOURCES, false; any_ref7 Ref7 5, 1, false; any_vec8 Vec8 6, SOURCES, false; any_bools8 Bools8 6, SOURCES, false; any_cowstr8 CowStr8 5, SOURCES, true; any_refstr8 RefStr8 5, 1, true;
        any_vec16 Vec16 7, SOURCES, false; any_wide16 Wide16 8, SOURCES, false; any_vec32 Vec32 9, SOURCES, false; any_wide64 Wide64 14, SOURCES, false; any_str64 Str64 12, SOURCES, true; any_vecv VecV 12, SOURCES, false; any_cowv CowV 13, SOURCES, false; any_refv RefV 12, 1, false;
    }
    exprs {
        w_vec r_vec EVec 5, SOURCES, false, false; w_str r_str EStr 4, SOURCES, false, true; w_wide r_wide EWide 5, SOURCES, false, false; w_sub r_sub ESub 3, SOURCES, false, false; w_cow r_cow ECow 4, SOURCES, false, false; w_coww r_coww ECowW 5, SOURCES, false, false; w_cowstr r_cowstr ECowStr 4, SOURCES, false, true;
        w_ref r_ref ERef 4, 1, false, false; w_refstr r_refstr ERefStr 4, 1, false, true; w_map r_map EMap 7, SOURCES, true, false; w_set r_set ESet 6, SOURCES, true, false; w_full r_full EFull 6, SOURCES, false, false; w_bools r_bools EBools 3, SOURCES, false, false;
    }
    r_const { expr_read::<EConst>(5, SOURCES, false, false) }
    w_const { let e = endian(); let (a, len) = (any_u8(), choose(6)); let v = EConst { n: a, data: vec![7; len], t: 1 }; check(write(choose(SINKS), e, &v).is_ok() == (len == 3), "a constant length is not checked") }
    w_call {
        expect("equal"); expect("different");
        let e = endian();
        let (n, m, i, j) = (any_u8(), any_u16(), choose(5), choose(4));
        let r = write(choose(SINKS), e, &ECall { n, data: vec![1; i], m, more: "x".repeat(j), t: 9 });
        if n as usize * 2 == i && m as usize + 1 == j { cover("equal"); let mut o = Out::new(is_be(e)); o.u8(n); o.raw(&vec![1; i]); o.u16(m); o.raw(&vec![b'x'; j]); o.u8(9); check(matches!(r, Ok(w) if eq(&w, &o.b)), "a container is written wrongly") }
        else { cover("different"); check(r.is_err(), "a length that is not what its expression says is written") }
    }
    r_call {
        expect("read");
        let e = endian();
        let b = byte_vec(choose(9));
        let (r, used) = read::<_, ECall>(choose(SOURCES), e, &b);
        match r {
            Ok(v) => {
                cover("read");
                check(v.data.len() == v.n as usize * 2 && v.more.len() == v.m as usize + 1, "the length is not honoured");
                let n = 1 + v.data.len() + 2 + v.more.len() + 1;
                check(n <= b.len() && v.t == b[n - 1] && eq(&v.data, &b[1..1 + v.data.len()]), "the elements are wrong");
                if let Some(u) = used { check(u == n, "the number of bytes consumed is wrong") }
            }
            Err(_) => {
                let need = if b.is_empty() { None } else { let a = 3 + b[0] as usize * 2; if b.len() < a { None } else { let m = if is_be(e) { u16::from_be_bytes([b[a - 2], b[a - 1]]) } else { u16::from_le_bytes([b[a - 2], b[a - 1]]) } as usize; Some((a, m + 1)) } };
                check(!matches!(need, Some((a, m)) if a + m < b.len() && b[a..a + m].iter().all(|x| *x < 0x80)), "a valid length is rejected");
            }
        }
    }
    two {
        expect("equal"); expect("different");
        let e = endian();
        let (a, b, i, j) = (any_u8(), any_u8(), choose(4), choose(3));
        let v = ETwo { a, b, data: vec![5; i], more: vec![0x0102; j] };
        let mut o = Out::new(is_be(e));
        o.u8(a); o.u8(b); o.raw(&vec![5; i]); for _ in 0..j { o.u16(0x0102) }
        let r = write(choose(SINKS), e, &v);
        if a as usize + b as usize == i && b as usize == j {
            cover("equal");
            check(matches!(r, Ok(w) if eq(&w, &o.b)), "a container is written wrongly");
            let (r, used) = read::<_, ETwo>(choose(SOURCES), e, &o.b);
            check(matches!(r, Ok(w) if w.data == v.data && w.more == v.more), "a container is read wrongly");
            if let Some(u) = used { check(u == o.b.len(), "the number of bytes consumed is wrong") }
        } else { cover("different"); check(r.is_err(), "a length that is not what its expression says is written") }
    }
    tuple {
        expect("equal");
        let e = endian();
        let (a, i) = (any_u8(), choose(4));
        let r = write(choose(SINKS), e, &ETup(a, vec![3; i], 4));
        check(r.is_ok() == (a as usize == i), "a length that is not what its expression says is written, or the right one is not");
        if let Ok(w) = r { cover("equal"); let v = read::<_, ETup>(choose(SOURCES), e, &w).0; check(matches!(v, Ok(x) if x.0 == a && x.1.len() == i && x.2 == 4), "a container is read wrongly") }
    }
    variant {
        expect("equal");
        let e = endian();
        let (a, i) = (any_u8(), choose(4));
        let r = write(choose(SINKS), e, &EEnum::A { n: a, data: vec![3; i] });
        check(r.is_ok() == (a as usize == i), "a length that is not what its expression says is written, or the right one is not");
        if let Ok(w) = r { cover("equal"); let v = read::<_, EEnum>(choose(SOURCES), e, &w).0; check(matches!(v, Ok(EEnum::A { n, data }) if n == a && data.len() == i), "a container is read wrongly") }
        let r = write(choose(SINKS), e, &EEnum::B(a, "x".repeat(i)));
        check(r.is_ok() == (a as usize == i), "a length that is not what its expression says is written, or the right one is not");
        if let Ok(w) = r { let v = read::<_, EEnum>(choose(SOURCES), e, &w).0; check(matches!(v, Ok(EEnum::B(n, data)) if n == a && data.len() == i), "a container is read wrongly") }
    }
    signed { expect("negative"); let e = endian(); let b = byte_vec(choose(6)); let (r, _) = read::<_, ESigned>(choose(SOURCES), e, &b); match r { Ok(v) => check(v.n >= 0 && v.data.len() == v.n as usize, "a negative length is accepted"), Err(_) => { if b.len() > 0 && b[0] >= 128 { cover("negative") } else { check(b.is_empty() || b[0] as usize >= b.len(), "a valid length is rejected") } } } }
    huge { expect("huge"); let e = endian(); let b = byte_vec(choose(18)); let (r, _) = read::<_, EHuge>(choose(SOURCES), e, &b); match r { Ok(v) => check(v.n <= 1 && v.data.len() == v.n as usize, "a length beyond the end of input is accepted"), Err(_) => cover("huge") } }
    huge_ref { expect("huge"); let b: &'static [u8] = byte_vec(choose(18)).leak(); let (r, _) = read::<_, EHugeRef>(0, speedy::Endianness::NATIVE, b); match r { Ok(v) => check(v.data.len() as u64 == v.n && v.n <= 2, "a length beyond the end of input is accepted"), Err(_) => cover("huge") } }
    long_vec { too_long(units(long()), false) } long_box { too_long(units(long()).into_boxed_slice(), false) } long_cow { too_long(Cow::<[()]>::Owned(units(long())), false) } long_field { too_long(Units { v: units(long()) }, false) }
    long_field16 { too_long(Units16 { v: units([65536, 65537, 131072, 1 << 32][choose(4)]) }, true) } long_field8 { too_long(Units8 { v: units([256, 257, 512, 65536, 1 << 32][choose(5)]) }, true) }
}
