//! Large values: sizes around the limits of buffers, of chunks and of narrow integers, with concrete sizes, a concrete pattern
//! and symbolic elements at both ends and in the middle.
use crate::fam::Fam;
use crate::props::*;
use crate::sx::*;
use crate::val::*;
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::*;

pub const THOROUGH: bool = cfg!(feature = "thorough");
/// Concrete elements that tell their position.
pub trait Pat: Val {
    /// values with few paths (otherwise only the element in the middle is symbolic)
    const PLAIN: bool = true;
    fn at(i: usize) -> Self;
}
macro_rules! pat { ($($t:ty)*) => { $(impl Pat for $t { fn at(i: usize) -> $t { (i as u64 ^ (i as u64 >> 8) * 31 ^ 0x55).wrapping_mul(0x9e3779b97f4a7c15) as $t } })* } }
pat! { u8 i8 u16 i16 u32 u64 i64 u128 }
impl Pat for f32 { fn at(i: usize) -> f32 { i as f32 } }
impl Pat for f64 { fn at(i: usize) -> f64 { f64::from_bits(u64::at(i)) } }
impl Pat for bool { fn at(i: usize) -> bool { i % 3 == 1 } }
impl Pat for char { fn at(i: usize) -> char { ['a', '\u{e9}', '\u{20ac}', '\u{1f600}'][i % 4] } }
impl Pat for String { const PLAIN: bool = false; fn at(i: usize) -> String { ["", "x", "\u{e9}t\u{e9}", "\u{1f600}"][i % 4].to_string() } }
impl Pat for Option<u16> { const PLAIN: bool = false; fn at(i: usize) -> Self { if i % 3 == 0 { None } else { Some(i as u16) } } }
impl Pat for (u8, u16) { fn at(i: usize) -> Self { (i as u8, i as u16 ^ 0x1234) } }
impl Pat for [u16; 2] { fn at(i: usize) -> Self { [i as u16, u16::at(i)] } }
/// `n` elements, some of them symbolic
pub fn vec<T: Pat>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n { v.push(if i == n / 2 || n <= 9 && T::PLAIN || T::PLAIN && (i == 0 || i + 1 == n) { T::gen() } else { T::at(i) }) }
    v
}
/// Text of `n` bytes (a little more or less): characters of every size, those at both ends and in the middle symbolic.
pub fn text(n: usize) -> String {
    let mut s = String::with_capacity(n + 8);
    let mut i = 0;
    while s.len() < n {
        let c = match i { 0 | 1 => any_char(1 + i), _ if s.len() + 1 == n => any_char(1), _ if i == n / 4 => any_char(3), _ => char::at(i) };
        let c = if s.len() + c.len_utf8() > n { 'z' } else { c };
        s.push(c);
        i += 1;
    }
    s
}
/// `n` ASCII characters
fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for i in 0..n { v.push(if i == n / 3 { let x = any_u8(); assume(x < 0x80); x } else { b'a' + (i % 26) as u8 }) }
    unsafe { String::from_utf8_unchecked(v) }
}
/// any character of `n` bytes
fn any_char(n: usize) -> char {
    let x = any_u32();
    let (lo, hi) = [(0, 0x80), (0x80, 0x800), (0x800, 0xd800), (0x10000, 0x110000)][n - 1];
    assume(x >= lo && x < hi);
    unsafe { char::from_u32_unchecked(x) }
}
fn pick(v: &[usize]) -> usize { v[choose(v.len())] }
const BYTES: &[usize] = if THOROUGH { &[127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 8187, 8188, 8189, 8192, 8193, 12289, 65535, 65536] } else { &[127, 128, 255, 256, 1024, 8188, 8189, 8193, 65536] };
const FEW: &[usize] = if THOROUGH { &[127, 128, 129, 255, 256, 257, 300, 511, 513] } else { &[128, 255, 256, 257] };
const TWO: &[usize] = if THOROUGH { &[255, 256, 257] } else { &[256] };

#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct Prim { a: u32, b: u16, c: u8, d: u8 }
#[derive(Readable, Writable, Clone)] pub struct Rec { a: u16, b: Option<u8>, c: bool }
#[derive(Readable, Writable, Clone)] pub struct Mid { a: u8, v: Vec<u32>, s: String, t: u16 }
#[derive(Readable, Writable, Clone)] pub struct Lens { #[speedy(length_type = u64_varint)] a: Vec<u8>, #[speedy(length_type = u16)] b: String, #[speedy(length_type = u8)] c: Vec<u16>, d: u8 }
#[derive(Readable, Writable, Clone)] pub struct Expr { n: u16, #[speedy(length = n)] v: Vec<u16>, t: u8 }
#[derive(Readable, Writable, Clone)] pub struct Rest { n: u16, #[speedy(length = ..)] v: Vec<u16> }
#[derive(Readable, Writable, Clone)] pub struct List { x: u8, next: Option<Box<List>> }
#[derive(Readable, Writable, Clone)] pub enum Tree { Leaf(u8), Node(Vec<Tree>) }
macro_rules! rec { ($($t:ident { $($f:ident),* } $i:ident => $at:expr;)*) => { $(
    impl Val for $t { fn gen() -> Self { $t { $($f: Val::gen()),* } } fn enc(&self, o: &mut Out) { $({ let x = &self.$f; x.enc(o) })* } }
    impl Pat for $t { const PLAIN: bool = false; fn at($i: usize) -> Self { $at } }
)* } }
rec! {
    Prim { a, b, c, d } i => Prim { a: u32::at(i), b: i as u16, c: (i >> 8) as u8, d: 7 };
    Rec { a, b, c } i => Rec { a: i as u16, b: if i % 2 == 0 { None } else { Some(i as u8) }, c: i % 5 == 0 };
    Mid { a, v, s, t } _i => loop {};
}
impl Val for Lens { fn gen() -> Self { loop {} } fn enc(&self, o: &mut Out) {
    o.varint(self.a.len() as u64); o.raw(&self.a); o.u16(self.b.len() as u16); o.text(&self.b); o.u8(self.c.len() as u8); for x in &self.c { o.u16(*x) } o.u8(self.d)
} }
impl Val for Expr { fn gen() -> Self { loop {} } fn enc(&self, o: &mut Out) { o.u16(self.n); for x in &self.v { o.u16(*x) } o.u8(self.t) } }
impl Val for Rest { fn gen() -> Self { loop {} } fn enc(&self, o: &mut Out) { o.u16(self.n); for x in &self.v { o.u16(*x) } } }
impl Val for List { fn gen() -> Self { loop {} } fn enc(&self, o: &mut Out) { let mut x = self; loop { o.u8(x.x); match &x.next { Some(n) => { o.u8(1); x = n } None => { o.u8(0); break } } } } }
impl Val for Tree { fn gen() -> Self { loop {} } fn enc(&self, o: &mut Out) { match self { Tree::Leaf(x) => { o.u32(0); o.u8(*x) } Tree::Node(v) => { o.u32(1); o.len(v.len()); for x in v { x.enc(o) } } } } }
macro_rules! long { ($($n:ident: $t:ty = $g:expr $(, $k:ident = $v:expr)*;)*) => {
    $(pub struct $n; impl Fam for $n { type T<'a> = $t; $(const $k: bool = $v;)* fn gen<'a>() -> Self::T<'a> { $g } })*
    macro_rules! long_catalog { ($f:ident) => { crate::entries! { $($n { crate::long::$f::<crate::long::$n>() })* } } }
} }
long! {
    LU8: Vec<u8> = vec(pick(BYTES));
    LI8: Vec<i8> = vec(pick(&[128, 256, 8192, 65536]));
    LU16: Vec<u16> = vec(pick(&[3, 5, 7, 127, 128, 255, 256, 257, 512, 2047, 4094, 4096, 4097]));
    LI16: Vec<i16> = vec(pick(&[3, 7, 256, 4095]));
    LU32: Vec<u32> = vec(pick(&[3, 5, 7, 128, 255, 256, 1024, 2047, 2048]));
    LU64: Vec<u64> = vec(pick(&[3, 5, 9, 128, 256, 1023, 1025]));
    LU128: Vec<u128> = vec(pick(&[3, 5, 128, 512]));
    LF32: Vec<f32> = vec(pick(&[3, 5, 257]));
    LI64: Vec<i64> = vec(pick(&[3, 5, 1023]));
    LF64: Vec<f64> = vec(pick(&[3, 7, 256, 1024]));
    LBool: Vec<bool> = vec(pick(FEW)), CANON = false;
    LChar: Vec<char> = vec(pick(FEW));
    LStrs: Vec<String> = vec(pick(TWO));
    LOpts: Vec<Option<u16>> = vec(pick(FEW)), CANON = false;
    LPairs: Vec<(u8, u16)> = vec(pick(FEW));
    LArrs: Vec<[u16; 2]> = vec(pick(FEW));
    LPrims: Vec<Prim> = vec(pick(&[127, 128, 256, 1023, 1024]));
    LRecs: Vec<Rec> = vec(pick(FEW)), CANON = false;
    LStr: String = text(pick(BYTES));
    LAscii: String = ascii(pick(&[300, 5000, 9000]));
    LCowAscii: Cow<'a, str> = Cow::Owned(ascii(pick(&[300, 5000, 9000])));
    LRefAscii: &'a str = ascii(pick(&[300, 5000, 9000])).leak(), STREAM = false;
    LBoxStr: Box<str> = text(pick(&[128, 256, 8192])).into_boxed_str();
    LCowStr: Cow<'a, str> = Cow::Owned(text(pick(&[128, 256, 8192, 65536])));
    LRefStr: &'a str = text(pick(&[128, 256, 8192, 65536])).leak(), STREAM = false;
    LRefU8: &'a [u8] = vec(pick(&[128, 256, 8192, 65536])).leak(), STREAM = false;
    LCowU8: Cow<'a, [u8]> = Cow::Owned(vec(pick(&[128, 256, 8192, 65536])));
    LCowU16: Cow<'a, [u16]> = Cow::Owned(vec(pick(&[128, 256, 4096, 4097])));
    LCowOpt: Cow<'a, [Option<u16>]> = Cow::Owned(vec(pick(FEW))), CANON = false;
    LBoxU16: Box<[u16]> = vec(pick(&[128, 256, 4096])).into_boxed_slice();
    LMap: BTreeMap<u16, u8> = (0..pick(FEW)).map(|i| (i as u16 ^ 0x101, if i == 3 { any_u8() } else { i as u8 })).collect(), CANON = false, KEYED = true;
    LSet: BTreeSet<u16> = (0..pick(FEW)).map(|i| (i as u16) << 3).collect(), CANON = false, KEYED = true;
    LMapStr: BTreeMap<u32, String> = (0..pick(TWO)).map(|i| (i as u32 * 0x10001, String::at(i))).collect(), CANON = false, KEYED = true;
    LHash: HashMap<u16, u8, H> = (0..pick(TWO)).map(|i| (i as u16, if i == 3 { any_u8() } else { i as u8 })).collect(), CANON = false, KEYED = true;
    LHashSet: HashSet<u16, H> = (0..pick(TWO)).map(|i| i as u16 * 3).collect(), CANON = false, KEYED = true;
    LArrU8: [u8; 9000] = vec(9000).try_into().unwrap();
    LArrU16: [u16; 300] = vec(300).try_into().unwrap();
    LArrU32: [u32; 2100] = vec(2100).try_into().unwrap();
    LArrStr: [String; 40] = vec(40).try_into().ok().unwrap();
    LArrRec: [Rec; 130] = vec(130).try_into().ok().unwrap(), CANON = false;
    LMid: Mid = Mid { a: any_u8(), v: vec(pick(&[127, 2045, 2049])), s: text(pick(&[0, 130, 8190])), t: any_u16() };
    LLens: Lens = Lens { a: vec(pick(&[127, 128, 16383, 16384])), b: text(pick(&[255, 256])), c: vec(pick(&[127, 128, 255])), d: any_u8() };
    LLens2: Lens = Lens { a: vec(3), b: text(pick(&[8192, 65535])), c: vec(255), d: any_u8() };
    LExpr: Expr = { let n = pick(&[255, 256, 4096]); Expr { n: n as u16, v: vec(n), t: any_u8() } };
    LRest: Rest = Rest { n: any_u16(), v: vec(pick(&[127, 256, 4095, 4096, 8200])) }, EXACT = false;
    LList: List = { let mut x = List { x: any_u8(), next: None }; for i in 0..pick(&[8, 40]) { x = List { x: if i % 16 == 7 { any_u8() } else { i as u8 }, next: Some(Box::new(x)) } } x }, CANON = false;
    LTree: Tree = { let mut x = Tree::Leaf(any_u8()); for i in 0..12 { x = Tree::Node(vec![x, Tree::Leaf(i)]) } Tree::Node((0..pick(TWO)).map(|i| if i == 100 { x.clone() } else { Tree::Leaf(i as u8) }).collect()) };
    LVecVec: Vec<Vec<u8>> = vec![vec(255), vec(256), vec![], vec(8200), vec(1)];
    LTuple: (Vec<u8>, u32, String, u8) = (vec(pick(&[8183, 8184, 8187, 8188])), any_u32(), text(20), any_u8());
}
pub fn roundtrip<F: Fam>() { crate::props::roundtrip::<F>() }
pub fn format<F: Fam>() { crate::props::format::<F>() }
pub fn sizes<F: Fam>() { crate::props::sizes::<F>() }
pub fn truncated_exact<F: Fam>() { crate::props::truncated_exact::<F>() }
/// The encoding of a large value, or something close to it.
fn nearly<F: Fam>() -> (speedy::Endianness, Vec<u8>) {
    let e = endian();
    let v = F::gen();
    let mut b = encode(&v, is_be(e));
    let n = b.len();
    match choose(6) {
        0 => {}
        1 => { b.pop(); }
        2 => b.truncate(n / 2),
        3 => b.push(any_u8()),
        4 => b[0] ^= 1,
        _ if F::KEYED => { b[n / 2] ^= 1; b[n - 2] ^= 4 }
        _ => { if n > 300 { b[3] = 0; b[n / 2] = any_u8(); b[n - 2] = any_u8() } else { b[n - 1] = any_u8() } }
    }
    (e, b)
}
pub fn readers<F: Fam>() { let (e, b) = nearly::<F>(); readers_on::<F>(e, &b) }
pub fn strict<F: Fam>() { let (e, b) = nearly::<F>(); strict_on::<F>(e, &b) }
pub fn robust<F: Fam>() { let (e, b) = nearly::<F>(); robust_on::<F>(e, &b) }
pub fn placed<F: Fam>() { crate::props::placed::<F>() }
pub fn minimum<F: Fam>() {
    let (e, v) = (endian(), F::gen());
    let n = encode(&v, is_be(e)).len();
    let m = <F::T<'_> as Readable<speedy::Endianness>>::minimum_bytes_needed();
    observe(m as u64);
    check(m <= n, "minimum_bytes_needed exceeds the length of an encoding");
    check(<Vec<F::T<'_>> as Readable<speedy::Endianness>>::minimum_bytes_needed() <= 4, "minimum_bytes_needed of a Vec is too large");
    check(<[F::T<'_>; 2] as Readable<speedy::Endianness>>::minimum_bytes_needed() <= 2 * n, "minimum_bytes_needed of an array is too large");
    check(<Result<F::T<'_>, [u8; 1 << 20]> as Readable<speedy::Endianness>>::minimum_bytes_needed() <= n + 1, "minimum_bytes_needed of a Result is too large");
}
#[cfg(feature = "p15r")] pub fn faulty_reads<F: Fam>() { crate::p15::reads::<F>() }
#[cfg(feature = "p15w")] pub fn faulty_writes<F: Fam>() { crate::p15::writes::<F>() }
#[cfg(feature = "p22c")] pub fn contexts<F: Fam>() { expect("done"); let (e, b) = nearly::<F>(); crate::p22::contexts_on::<F>(e, &b) }
