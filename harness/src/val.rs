//! Symbolic generators and the reference encoder for every supported type.
//!
//! `enc` is written from the documented wire format (README "Supported types" and the comments
//! in varint.rs), and shares no code with speedy.
use crate::sx::*;
use std::borrow::Cow;
use std::collections::*;
use std::hash::{BuildHasher, Hash, Hasher};

#[cfg(feature = "thorough")]
pub const LEN: usize = 3;
#[cfg(not(feature = "thorough"))]
pub const LEN: usize = 2;

pub struct Out {
    pub be: bool,
    /// canonical form (unordered collections are sorted): used to compare values
    pub canon: bool,
    /// also check that what is encoded is a valid value of its type
    pub valid: bool,
    pub b: Vec<u8>,
}
impl Out {
    pub fn new(be: bool) -> Out {
        Out { be, canon: false, valid: false, b: Vec::with_capacity(64) }
    }
    pub fn raw(&mut self, x: &[u8]) {
        self.b.extend_from_slice(x)
    }
    /// `x` holds an integer in little endian
    pub fn int(&mut self, x: &[u8]) {
        let n = x.len();
        let mut i = 0;
        while i < n {
            self.b.push(if self.be { x[n - 1 - i] } else { x[i] });
            i += 1;
        }
    }
    pub fn text(&mut self, x: &str) {
        if self.valid { check(std::str::from_utf8(x.as_bytes()).is_ok(), "text that is not UTF-8") }
        self.raw(x.as_bytes())
    }
    pub fn u8(&mut self, x: u8) {
        self.b.push(x)
    }
    pub fn u16(&mut self, x: u16) {
        self.int(&x.to_le_bytes())
    }
    pub fn u32(&mut self, x: u32) {
        self.int(&x.to_le_bytes())
    }
    pub fn u64(&mut self, x: u64) {
        self.int(&x.to_le_bytes())
    }
    pub fn len(&mut self, n: usize) {
        self.u32(n as u32)
    }
    pub fn varint(&mut self, x: u64) {
        // number of bytes after the first one
        let mut extra = 0u32;
        while extra < 8 && (x >> (7 * (extra + 1))) != 0 {
            extra += 1;
        }
        if extra == 8 {
            self.u8(0xff);
        } else {
            let prefix: u8 = !(0xffu32 >> extra) as u8;
            self.u8(prefix | ((x >> (8 * extra)) as u8));
        }
        let mut i = 0;
        while i < extra {
            self.u8((x >> (8 * i)) as u8);
            i += 1;
        }
    }
}

pub trait Val: Sized {
    fn gen() -> Self;
    fn enc(&self, o: &mut Out);
}
pub fn encode<T: Val>(v: &T, be: bool) -> Vec<u8> {
    let mut o = Out::new(be);
    v.enc(&mut o);
    o.b
}
pub fn canon<T: Val>(v: &T) -> Vec<u8> {
    let mut o = Out::new(false);
    o.canon = true;
    v.enc(&mut o);
    o.b
}

macro_rules! ints { ($($t:ty)*) => { $(
    impl Val for $t {
        fn gen() -> Self { <$t>::from_le_bytes(bytes()) }
        fn enc(&self, o: &mut Out) { o.int(&self.to_le_bytes()) }
    }
)* } }
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
impl Val for f32 {
    fn gen() -> Self { f32::from_bits(any_u32()) }
    fn enc(&self, o: &mut Out) { o.u32(self.to_bits()) }
}
impl Val for f64 {
    fn gen() -> Self { f64::from_bits(any_u64()) }
    fn enc(&self, o: &mut Out) { o.u64(self.to_bits()) }
}
impl Val for usize {
    fn gen() -> Self { any_u64() as usize }
    fn enc(&self, o: &mut Out) { o.u64(*self as u64) }
}
impl Val for bool {
    fn gen() -> Self { any_bool() }
    fn enc(&self, o: &mut Out) {
        if o.valid { check(unsafe { *(self as *const bool as *const u8) } < 2, "a bool that is neither true nor false") }
        o.u8(if *self { 1 } else { 0 })
    }
}
impl Val for char {
    fn gen() -> Self {
        let x = any_u32();
        assume(x < 0x110000);
        assume(x < 0xd800 || x > 0xdfff);
        unsafe { char::from_u32_unchecked(x) }
    }
    fn enc(&self, o: &mut Out) {
        let x = unsafe { *(self as *const char as *const u32) };
        if o.valid { check(x < 0x110000 && (x < 0xd800 || x > 0xdfff), "a char that is not a Unicode scalar value") }
        o.u32(x)
    }
}
impl Val for () {
    fn gen() -> Self {}
    fn enc(&self, _: &mut Out) {}
}
impl Val for speedy::Endianness {
    fn gen() -> Self { if choose(2) == 0 { speedy::Endianness::LittleEndian } else { speedy::Endianness::BigEndian } }
    fn enc(&self, o: &mut Out) { o.u8(match self { speedy::Endianness::LittleEndian => 0, speedy::Endianness::BigEndian => 1 }) }
}
macro_rules! nonzero { ($($n:ident $t:ty;)*) => { $(
    impl Val for std::num::$n {
        fn gen() -> Self { let x = <$t>::gen(); assume(x != 0); unsafe { std::num::$n::new_unchecked(x) } }
        fn enc(&self, o: &mut Out) {
            if o.valid { check(unsafe { *(self as *const Self as *const $t) } != 0, "a NonZero that is zero") }
            self.get().enc(o)
        }
    }
)* } }
nonzero! { NonZeroU8 u8; NonZeroU16 u16; NonZeroU32 u32; NonZeroU64 u64; NonZeroI8 i8; NonZeroI16 i16; NonZeroI32 i32; NonZeroI64 i64; }
macro_rules! atomic { ($($n:ident $t:ty;)*) => { $(
    impl Val for std::sync::atomic::$n {
        fn gen() -> Self { std::sync::atomic::$n::new(<$t>::gen()) }
        fn enc(&self, o: &mut Out) { self.load(std::sync::atomic::Ordering::SeqCst).enc(o) }
    }
)* } }
atomic! { AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; }
impl Val for std::net::Ipv4Addr {
    fn gen() -> Self { std::net::Ipv4Addr::from(bytes::<4>()) }
    // the address as a u32 whose most significant byte is the first octet
    fn enc(&self, o: &mut Out) { let b = self.octets(); o.int(&[b[3], b[2], b[1], b[0]]) }
}
impl Val for std::net::Ipv6Addr {
    fn gen() -> Self { std::net::Ipv6Addr::from(bytes::<16>()) }
    fn enc(&self, o: &mut Out) { let mut b = self.octets(); b.reverse(); o.int(&b) }
}
impl Val for std::net::IpAddr {
    fn gen() -> Self { if choose(2) == 0 { std::net::IpAddr::V4(Val::gen()) } else { std::net::IpAddr::V6(Val::gen()) } }
    fn enc(&self, o: &mut Out) {
        match self {
            std::net::IpAddr::V4(x) => { o.u8(0); x.enc(o) }
            std::net::IpAddr::V6(x) => { o.u8(1); x.enc(o) }
        }
    }
}
impl Val for std::time::Duration {
    fn gen() -> Self {
        let n = any_u32();
        assume(n < 1_000_000_000);
        std::time::Duration::new(any_u64(), n)
    }
    fn enc(&self, o: &mut Out) { if o.valid { check(self.subsec_nanos() < 1_000_000_000, "a Duration with too many nanoseconds") } o.u64(self.as_secs()); o.u32(self.subsec_nanos()) }
}
impl Val for std::time::SystemTime {
    fn gen() -> Self {
        let d = std::time::Duration::gen();
        assume(d.as_secs() <= i64::MAX as u64);
        std::time::SystemTime::UNIX_EPOCH + d
    }
    fn enc(&self, o: &mut Out) {
        match self.duration_since(std::time::SystemTime::UNIX_EPOCH) {
            Ok(d) => d.enc(o),
            Err(_) => { check(false, "a time before the epoch was produced"); }
        }
    }
}
impl Val for String {
    fn gen() -> Self {
        let n = choose(LEN + 2);
        match String::from_utf8(byte_vec(n)) {
            Ok(s) => s,
            Err(_) => { assume(false); String::new() }
        }
    }
    fn enc(&self, o: &mut Out) { o.len(self.len()); o.text(self) }
}
impl<'a> Val for Cow<'a, str> {
    fn gen() -> Self { Cow::Owned(String::gen()) }
    fn enc(&self, o: &mut Out) { o.len(self.len()); o.text(self) }
}
impl<'a> Val for &'a str {
    fn gen() -> Self { Box::leak(String::gen().into_boxed_str()) }
    fn enc(&self, o: &mut Out) { o.len(self.len()); o.text(self) }
}
pub fn gen_vec<T: Val>(max: usize) -> Vec<T> {
    let n = choose(max + 1);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(T::gen());
    }
    v
}
pub fn enc_items<T: Val>(v: &[T], o: &mut Out) {
    for x in v {
        x.enc(o)
    }
}
fn enc_seq<T: Val>(v: &[T], o: &mut Out) {
    o.len(v.len());
    enc_items(v, o)
}
impl<T: Val> Val for Vec<T> {
    fn gen() -> Self { gen_vec(LEN) }
    fn enc(&self, o: &mut Out) { enc_seq(self, o) }
}
impl<'a, T: Val + Clone> Val for Cow<'a, [T]> {
    fn gen() -> Self { Cow::Owned(gen_vec(LEN)) }
    fn enc(&self, o: &mut Out) { enc_seq(self, o) }
}
impl<'a, T: Val> Val for &'a [T] {
    fn gen() -> Self { Box::leak(gen_vec(LEN).into_boxed_slice()) }
    fn enc(&self, o: &mut Out) { enc_seq(self, o) }
}
impl<T: Val> Val for Box<T> {
    fn gen() -> Self { Box::new(T::gen()) }
    fn enc(&self, o: &mut Out) { (**self).enc(o) }
}
impl<T: Val> Val for Box<[T]> {
    fn gen() -> Self { gen_vec(LEN).into_boxed_slice() }
    fn enc(&self, o: &mut Out) { enc_seq(self, o) }
}
impl Val for Box<str> {
    fn gen() -> Self { String::gen().into_boxed_str() }
    fn enc(&self, o: &mut Out) { o.len(self.len()); o.text(self) }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn gen() -> Self { std::array::from_fn(|_| T::gen()) }
    fn enc(&self, o: &mut Out) { enc_items(self, o) }
}
impl<'a, T: Val, const N: usize> Val for &'a [T; N] {
    fn gen() -> Self { Box::leak(Box::new(<[T; N]>::gen())) }
    fn enc(&self, o: &mut Out) { enc_items(&self[..], o) }
}
impl<T: Val> Val for Option<T> {
    fn gen() -> Self { if choose(2) == 0 { None } else { Some(T::gen()) } }
    fn enc(&self, o: &mut Out) {
        match self { None => o.u8(0), Some(x) => { o.u8(1); x.enc(o) } }
    }
}
impl<T: Val, E: Val> Val for Result<T, E> {
    fn gen() -> Self { if choose(2) == 0 { Err(E::gen()) } else { Ok(T::gen()) } }
    fn enc(&self, o: &mut Out) {
        match self { Err(x) => { o.u8(0); x.enc(o) } Ok(x) => { o.u8(1); x.enc(o) } }
    }
}
impl<T: Val> Val for std::ops::Range<T> {
    fn gen() -> Self { let a = T::gen(); let b = T::gen(); a..b }
    fn enc(&self, o: &mut Out) { self.start.enc(o); self.end.enc(o) }
}
impl<T: Val> Val for std::ops::RangeInclusive<T> {
    fn gen() -> Self { let a = T::gen(); let b = T::gen(); a..=b }
    fn enc(&self, o: &mut Out) { self.start().enc(o); self.end().enc(o) }
}
macro_rules! tuple { ($($n:ident)*) => {
    impl<$($n: Val),*> Val for ($($n,)*) {
        fn gen() -> Self { ($($n::gen(),)*) }
        #[allow(non_snake_case)]
        fn enc(&self, o: &mut Out) { let ($($n,)*) = self; $($n.enc(o);)* }
    }
} }
tuple!(A); tuple!(A B); tuple!(A B C); tuple!(A B C D); tuple!(A B C D E); tuple!(A B C D E F); tuple!(A B C D E F G);
tuple!(A B C D E F G G1); tuple!(A B C D E F G G1 I); tuple!(A B C D E F G G1 I J); tuple!(A B C D E F G G1 I J K);

/// Hasher without mixing: the quality of the hash is not the subject, and it keeps the formulas small.
#[derive(Clone, Default)]
pub struct H;
pub struct HH(u64);
impl BuildHasher for H {
    type Hasher = HH;
    fn build_hasher(&self) -> HH { HH(0) }
}
impl Hasher for HH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { self.0 = b.len() as u64 }
    fn write_u8(&mut self, _: u8) {}
    fn write_u16(&mut self, _: u16) {}
    fn write_u32(&mut self, _: u32) {}
    fn write_u64(&mut self, _: u64) {}
    fn write_usize(&mut self, _: usize) {}
}
/// Entries of an unordered collection, each already encoded: written in iteration order, or sorted for `canon`.
fn enc_entries(mut items: Vec<Vec<u8>>, o: &mut Out) {
    o.len(items.len());
    if o.canon {
        items.sort();
    }
    for i in items {
        o.raw(&i)
    }
}
fn sub(o: &Out) -> Out {
    let mut s = Out::new(o.be);
    s.canon = o.canon;
    s.valid = o.valid;
    s
}
impl<K: Val + Hash + Eq, V: Val, S: BuildHasher + Default> Val for HashMap<K, V, S> {
    fn gen() -> Self {
        let n = choose(LEN + 1);
        let mut m = HashMap::default();
        for _ in 0..n { m.insert(K::gen(), V::gen()); }
        m
    }
    fn enc(&self, o: &mut Out) {
        let items = self.iter().map(|(k, v)| { let mut s = sub(o); k.enc(&mut s); v.enc(&mut s); s.b }).collect();
        enc_entries(items, o)
    }
}
impl<K: Val + Hash + Eq, S: BuildHasher + Default> Val for HashSet<K, S> {
    fn gen() -> Self {
        let n = choose(LEN + 1);
        let mut m = HashSet::default();
        for _ in 0..n { m.insert(K::gen()); }
        m
    }
    fn enc(&self, o: &mut Out) {
        let items = self.iter().map(|k| { let mut s = sub(o); k.enc(&mut s); s.b }).collect();
        enc_entries(items, o)
    }
}
impl<K: Val + Ord, V: Val> Val for BTreeMap<K, V> {
    fn gen() -> Self {
        let n = choose(LEN + 1);
        let mut m = BTreeMap::default();
        for _ in 0..n { m.insert(K::gen(), V::gen()); }
        m
    }
    fn enc(&self, o: &mut Out) {
        o.len(self.len());
        for (k, v) in self { k.enc(o); v.enc(o) }
    }
}
impl<K: Val + Ord> Val for BTreeSet<K> {
    fn gen() -> Self {
        let n = choose(LEN + 1);
        let mut m = BTreeSet::default();
        for _ in 0..n { m.insert(K::gen()); }
        m
    }
    fn enc(&self, o: &mut Out) {
        o.len(self.len());
        for k in self { k.enc(o) }
    }
}
macro_rules! cow { ($([$($g:tt)*] $t:ty;)*) => { $(
    impl<'a, $($g)*> Val for Cow<'a, $t> {
        fn gen() -> Self { Cow::Owned(<$t>::gen()) }
        fn enc(&self, o: &mut Out) { (**self).enc(o) }
    }
)* } }
cow! {
    [K: Val + Hash + Eq + Clone, V: Val + Clone] HashMap<K, V>;
    [K: Val + Hash + Eq + Clone] HashSet<K>;
    [K: Val + Ord + Clone, V: Val + Clone] BTreeMap<K, V>;
    [K: Val + Ord + Clone] BTreeSet<K>;
}
