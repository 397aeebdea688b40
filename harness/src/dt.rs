//! Derived types under test, each with a generator and a hand-written reference encoding.
use crate::sx::*;
use crate::val::*;
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::*;

#[derive(Copy, Clone)]
pub enum Lt { U7, U8, U16, U32, U64, V }
impl Out {
    pub fn lt(&mut self, t: Lt, n: usize) {
        match t {
            Lt::U7 | Lt::U8 => self.u8(n as u8),
            Lt::U16 => self.u16(n as u16),
            Lt::U32 => self.u32(n as u32),
            Lt::U64 => self.u64(n as u64),
            Lt::V => self.varint(n as u64),
        }
    }
}
/// Fields in declaration order, each encoded on its own.
macro_rules! rec {
    ($([$($g:tt)*] $t:ty { $($f:ident),* };)*) => { $(
        impl<$($g)*> Val for $t {
            fn gen() -> Self { Self { $($f: Val::gen()),* } }
            fn enc(&self, _o: &mut Out) { $({ let x = &self.$f; x.enc(_o) })* }
        }
    )* };
}
/// The same for packed structs, whose fields cannot be borrowed.
macro_rules! rec_packed {
    ($($t:ty { $($f:tt: $ft:ty),* };)*) => { $(
        impl Val for $t {
            fn gen() -> Self { Self { $($f: Val::gen()),* } }
            fn enc(&self, _o: &mut Out) { $({ let x: $ft = self.$f; x.enc(_o) })* }
        }
    )* };
}

// ---- plain structs
#[derive(Readable, Writable)] pub struct SPlain { a: u8, b: u16, c: u32 }
#[derive(Readable, Writable)] pub struct STuple(u8, u16, u32);
#[derive(Readable, Writable)] pub struct SUnit;
#[derive(Readable, Writable)] pub struct SEmpty {}
#[derive(Readable, Writable, Clone)] pub struct SNew(u16);
#[derive(Readable, Writable, Clone)] pub struct SGen<T> { inner: T }
#[derive(Readable, Writable)] pub struct SGenDef<T = u8> { a: T, inner: Vec<T> }
#[derive(Readable, Writable)] pub struct SPair<A, B> { a: A, b: B }
#[derive(Readable, Writable)] pub struct SCowB<'a> { bytes: Cow<'a, [u8]> }
#[derive(Readable, Writable)] pub struct SCowW<'a> { words: Cow<'a, [u32]>, tail: u8 }
#[derive(Readable, Writable)] pub struct SCowS<'a> { inner: Cow<'a, str> }
#[derive(Readable, Writable)] pub struct SRefS<'a>(&'a str);
#[derive(Readable, Writable)] pub struct SRefB<'a>(&'a [u8]);
#[derive(Readable, Writable)] pub struct SMany { a: String, b: Vec<u16>, c: Option<u16>, d: Result<u8, u16>, e: (u8, bool) }
#[derive(Readable, Writable)] pub struct SColl { a: BTreeMap<u8, u16>, d: HashSet<u8, H> }
#[derive(Readable, Writable)] pub struct SArr { a: [u8; 3], b: [u16; 2], c: [bool; 2] }
#[derive(Readable, Writable)] pub struct SArrGen<T> { data: [T; 2] }
#[derive(Readable, Writable)] pub struct SOpts { a: Option<u16>, b: Option<String>, c: Option<[u16; 2]>, d: Option<u8> }
#[derive(Readable, Writable)] pub struct SFloat { a: f32, b: f64 }
#[derive(Readable, Writable)] pub struct SWide { a: u64, b: i64, c: u128, d: i8, e: i16, f: i32 }
#[derive(Readable, Writable)] pub struct SNest { x: SPlain, y: STuple, z: Vec<SNew> }
#[derive(Readable, Writable)] pub struct SBool { a: bool, b: bool, c: u8, d: u8 }
#[derive(Readable, Writable)] pub struct SChar { a: char, b: u32 }
#[derive(Readable, Writable)] pub struct SBox { a: Box<u16>, b: Box<[u8]>, c: Box<str> }
rec! {
    [] SPlain { a, b, c }; [] SUnit {}; [] SEmpty {};
    [T: Val] SGen<T> { inner }; [T: Val] SGenDef<T> { a, inner }; [A: Val, B: Val] SPair<A, B> { a, b };
    ['a] SCowB<'a> { bytes }; ['a] SCowW<'a> { words, tail }; ['a] SCowS<'a> { inner };
    [] SMany { a, b, c, d, e }; [] SColl { a, d }; [] SArr { a, b, c }; [T: Val] SArrGen<T> { data }; [] SOpts { a, b, c, d };
    [] SFloat { a, b }; [] SWide { a, b, c, d, e, f }; [] SNest { x, y, z }; [] SBool { a, b, c, d }; [] SChar { a, b }; [] SBox { a, b, c };
}
macro_rules! rec_t { ($([$($g:tt)*] $t:ty { $($f:tt),* };)*) => { $(
    impl<$($g)*> Val for $t {
        fn gen() -> Self { Self { $($f: Val::gen()),* } }
        fn enc(&self, _o: &mut Out) { $({ let x = &self.$f; x.enc(_o) })* }
    }
)* } }
rec_t! { [] STuple { 0, 1, 2 }; [] SNew { 0 }; ['a] SRefS<'a> { 0 }; ['a] SRefB<'a> { 0 }; }

// ---- structs that qualify (or nearly qualify) for the primitive fast path
#[derive(Readable, Writable, Clone)] pub struct PPrim { a: u32, b: u32 }
#[derive(Readable, Writable, Clone)] pub struct PDesc { a: u16, b: u8, c: u8 }
#[derive(Readable, Writable, Clone)] pub struct PReord { a: u8, b: u16, c: u8 }
#[derive(Readable, Writable, Clone)] pub struct PReord4 { a: u8, b: u8, c: u8, d: u32, e: u8 }
#[derive(Readable, Writable, Clone)] pub struct PFive { a: u16, b: u16, c: u16, d: u16, e: u16 }
#[derive(Readable, Writable, Clone)] pub struct PNest { a: PPrim, b: PDesc }
#[derive(Readable, Writable, Clone)] pub struct PArr { a: [u16; 2], b: u32 }
#[derive(Readable, Writable, Clone)] pub struct PEndianMix { a: u64, b: u32, c: u16, d: i16 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct PC { a: u8, b: u8, c: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct PCPad { a: u8, b: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct PCTail { a: u16, b: u8 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct PCNest { a: PC, b: u32 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct PCGen<T> { a: T, b: T }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct PCFloat { a: f32, b: u16, c: i16 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct PCBool { a: bool, b: u8 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct PTrans(u16);
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct PTransU8(u8);
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct PTransBool(bool);
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct PTransVec(Vec<u16>);
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct PTransNest(PC);
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct PTransArr([u16; 2]);
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct PPacked(u16, u16);
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct PPackedC { a: u8, b: u32, c: u16 }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct PPackedNest { a: u8, b: PPacked, c: PPackedC }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct PPackedBool { a: u16, b: bool }
#[derive(Readable, Writable, Clone, Copy)] #[speedy(unsafe_is_primitive = always)] #[repr(C)] pub struct PForced { a: u32, b: u16, c: u16 }
rec! {
    [] PPrim { a, b }; [] PDesc { a, b, c }; [] PReord { a, b, c }; [] PReord4 { a, b, c, d, e }; [] PFive { a, b, c, d, e };
    [] PNest { a, b }; [] PArr { a, b }; [] PEndianMix { a, b, c, d };
    [] PC { a, b, c }; [] PCPad { a, b }; [] PCTail { a, b }; [] PCNest { a, b }; [T: Val] PCGen<T> { a, b }; [] PCFloat { a, b, c }; [] PCBool { a, b };
    [] PForced { a, b, c };
}
rec_t! { [] PTrans { 0 }; [] PTransU8 { 0 }; [] PTransBool { 0 }; [] PTransVec { 0 }; [] PTransNest { 0 }; [] PTransArr { 0 }; }
rec_packed! {
    PPacked { 0: u16, 1: u16 }; PPackedC { a: u8, b: u32, c: u16 }; PPackedNest { a: u8, b: PPacked, c: PPackedC }; PPackedBool { a: u16, b: bool };
}
// ---- primitive candidates with attributes, nested transparent structs, zero-sized types
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct QTransIn { a: PTrans, b: u16 }
#[derive(Readable, Writable, Clone)] pub struct QTransSimple { a: PTransNest, b: PTrans, c: PTransU8, d: u8 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct QTransPfx { #[speedy(constant_prefix = "x")] a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct QTransVar { #[speedy(varint)] a: u64 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)] pub struct QTransSkip { #[speedy(skip)] a: u16 }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct QPackPfx { #[speedy(constant_prefix = 7_u8)] a: u8, b: u8 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct QCPfx { a: u16, #[speedy(constant_prefix = "yz")] b: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct QCSkip { a: u8, #[speedy(skip)] b: u8 }
#[derive(Readable, Writable, Clone)] #[repr(C)] pub struct QCVar { a: u64, #[speedy(varint)] b: u64 }
#[derive(Readable, Writable, Clone)] pub struct QCEof { a: u16, #[speedy(default_on_eof)] b: u16 }
#[derive(Readable, Writable, Clone)] pub struct QZstPfx { #[speedy(constant_prefix = "ab")] a: () }
#[derive(Readable, Writable, Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct QEmpty {}
rec! { [] QTransIn { a, b }; [] QTransSimple { a, b, c, d }; [] QCEof { a, b }; [] QEmpty {}; }
impl Val for QTransPfx { fn gen() -> Self { QTransPfx { a: Val::gen() } } fn enc(&self, o: &mut Out) { o.u8(b'x'); self.a.enc(o) } }
impl Val for QTransVar { fn gen() -> Self { QTransVar { a: Val::gen() } } fn enc(&self, o: &mut Out) { o.varint(self.a) } }
impl Val for QTransSkip { fn gen() -> Self { QTransSkip { a: 0 } } fn enc(&self, o: &mut Out) { if o.canon { self.a.enc(o) } } }
impl Val for QPackPfx { fn gen() -> Self { QPackPfx { a: Val::gen(), b: Val::gen() } } fn enc(&self, o: &mut Out) { o.u8(7); let (a, b) = (self.a, self.b); a.enc(o); b.enc(o) } }
impl Val for QCPfx { fn gen() -> Self { QCPfx { a: Val::gen(), b: Val::gen() } } fn enc(&self, o: &mut Out) { self.a.enc(o); o.raw(b"yz"); self.b.enc(o) } }
impl Val for QCSkip { fn gen() -> Self { QCSkip { a: Val::gen(), b: 0 } } fn enc(&self, o: &mut Out) { self.a.enc(o); if o.canon { self.b.enc(o) } } }
impl Val for QCVar { fn gen() -> Self { QCVar { a: Val::gen(), b: Val::gen() } } fn enc(&self, o: &mut Out) { self.a.enc(o); o.varint(self.b) } }
impl Val for QZstPfx { fn gen() -> Self { QZstPfx { a: () } } fn enc(&self, o: &mut Out) { o.raw(b"ab") } }

/// Slices borrowed from the buffer: only in native byte order.
#[derive(Readable, Writable)] pub struct RPacked<'a>(&'a [PPacked]);
#[derive(Readable, Writable)] pub struct RPackedEof<'a>(#[speedy(length = ..)] &'a [PPacked]);
rec_t! { ['a] RPacked<'a> { 0 }; }
impl<'a> Val for RPackedEof<'a> {
    fn gen() -> Self { RPackedEof(Val::gen()) }
    fn enc(&self, o: &mut Out) { enc_items(self.0, o) }
}

// ---- enums
macro_rules! simple_enum { ($($(#[$m:meta])* $n:ident $lt:ident { $($v:ident = $d:tt => $tag:tt),* };)*) => { $(
    #[derive(Readable, Writable, Clone, Copy)] $(#[$m])* pub enum $n { $($v = $d),* }
    impl Val for $n {
        fn gen() -> Self {
            let all = [$($n::$v),*];
            all[choose(all.len())]
        }
        fn enc(&self, o: &mut Out) { match self { $($n::$v => o.lt_tag(Lt::$lt, $tag)),* } }
    }
)* } }
impl Out {
    pub fn lt_tag(&mut self, t: Lt, n: u64) { self.lt(t, n as usize) }
}
simple_enum! {
    #[speedy(tag_type = u7)] EU7 U7 { A = 0 => 0, B = 1 => 1, C = 0x7f => 0x7f };
    #[speedy(tag_type = u8)] EU8 U8 { A = 0 => 0, B = 0xab => 0xab, C = 0xff => 0xff };
    #[speedy(tag_type = u16)] EU16 U16 { A = 0 => 0, B = 0xabcd => 0xabcd, C = 0x1ff => 0x1ff };
    #[speedy(tag_type = u32)] #[repr(u32)] EU32 U32 { A = 0 => 0, B = 0xabcdef01 => 0xabcdef01, C = 0x10000 => 0x10000 };
    #[speedy(tag_type = u64)] #[repr(u64)] EU64 U64 { A = 0 => 0, B = 0xabcdef0123456789_u64 => 0xabcdef0123456789, C = 0x100000000_u64 => 0x100000000 };
    #[speedy(tag_type = u64_varint)] #[repr(u64)] EVar V { A = 0 => 0, B = 0x1234 => 0x1234, C = 0xabcdef0123456789_u64 => 0xabcdef0123456789 };
}
#[derive(Readable, Writable, Clone)] pub enum EAuto { A, B = 10, C }
impl Val for EAuto {
    fn gen() -> Self { match choose(3) { 0 => EAuto::A, 1 => EAuto::B, _ => EAuto::C } }
    fn enc(&self, o: &mut Out) { o.u32(match self { EAuto::A => 0, EAuto::B => 10, EAuto::C => 11 }) }
}
#[derive(Readable, Writable)] pub enum EData { A, B(u8, u16, u32), C { a: u8, b: u16, c: u32 }, D(String), E(Vec<u16>, u8) }
impl Val for EData {
    fn gen() -> Self {
        match choose(5) {
            0 => EData::A,
            1 => EData::B(Val::gen(), Val::gen(), Val::gen()),
            2 => EData::C { a: Val::gen(), b: Val::gen(), c: Val::gen() },
            3 => EData::D(Val::gen()),
            _ => EData::E(Val::gen(), Val::gen()),
        }
    }
    fn enc(&self, o: &mut Out) {
        match self {
            EData::A => o.u32(0),
            EData::B(a, b, c) => { o.u32(1); a.enc(o); b.enc(o); c.enc(o) }
            EData::C { a, b, c } => { o.u32(2); a.enc(o); b.enc(o); c.enc(o) }
            EData::D(x) => { o.u32(3); x.enc(o) }
            EData::E(x, y) => { o.u32(4); x.enc(o); y.enc(o) }
        }
    }
}
#[derive(Readable, Writable)] #[speedy(tag_type = u8)] #[repr(u8)]
pub enum ETag { #[speedy(tag = 20)] A = 10, B, #[speedy(tag = 5)] C(u16), D(#[speedy(length_type = u8)] Vec<u16>), #[speedy(tag = 255)] E { #[speedy(constant_prefix = "X")] x: u8 } }
impl Val for ETag {
    fn gen() -> Self {
        match choose(5) { 0 => ETag::A, 1 => ETag::B, 2 => ETag::C(Val::gen()), 3 => ETag::D(Val::gen()), _ => ETag::E { x: Val::gen() } }
    }
    fn enc(&self, o: &mut Out) {
        match self {
            ETag::A => o.u8(20),
            ETag::B => o.u8(21),
            ETag::C(x) => { o.u8(5); x.enc(o) }
            ETag::D(v) => { o.u8(6); o.u8(v.len() as u8); enc_items(v, o) }
            ETag::E { x } => { o.u8(255); o.u8(b'X'); x.enc(o) }
        }
    }
}
/// `peek_tag`: the tag is the first byte of the payload.
macro_rules! peek_enum { ($($n:ident $attr:ident $t:ty, $lt:ident;)*) => { $(
    #[derive(Readable, Writable)] #[speedy(tag_type = $attr)] #[speedy(peek_tag)]
    pub enum $n { #[speedy(tag = 1)] One { t: $t, x: u8 }, #[speedy(tag = 2)] Two { t: $t, x: u16 } }
    impl Val for $n {
        fn gen() -> Self { if choose(2) == 0 { $n::One { t: 1, x: Val::gen() } } else { $n::Two { t: 2, x: Val::gen() } } }
        fn enc(&self, o: &mut Out) {
            match self {
                $n::One { t, x } => { t.enc(o); x.enc(o) }
                $n::Two { t, x } => { t.enc(o); x.enc(o) }
            }
        }
    }
)* } }
peek_enum! { EPeek8 u8 u8, U8; EPeek16 u16 u16, U16; EPeek32 u32 u32, U32; EPeek64 u64 u64, U64; EPeek7 u7 u8, U7; }
/// `peek_tag` with a varint tag of two bytes.
#[derive(Readable, Writable)] #[speedy(tag_type = u64_varint)] #[speedy(peek_tag)]
pub enum EPeekV { #[speedy(tag = 3)] One { #[speedy(varint)] t: u64, x: u8 }, #[speedy(tag = 0x1234)] Two { #[speedy(varint)] t: u64, x: u16 } }
impl Val for EPeekV {
    fn gen() -> Self { if choose(2) == 0 { EPeekV::One { t: 3, x: Val::gen() } } else { EPeekV::Two { t: 0x1234, x: Val::gen() } } }
    fn enc(&self, o: &mut Out) {
        match self {
            EPeekV::One { t, x } => { o.varint(*t); x.enc(o) }
            EPeekV::Two { t, x } => { o.varint(*t); x.enc(o) }
        }
    }
}
#[derive(Readable, Writable)] #[speedy(tag_type = u8)] pub enum ERec { None, Some(Box<ERec>), Leaf(u16) }
fn gen_erec(d: usize) -> ERec {
    match choose(if d == 0 { 2 } else { 3 }) { 0 => ERec::None, 1 => ERec::Leaf(Val::gen()), _ => ERec::Some(Box::new(gen_erec(d - 1))) }
}
impl Val for ERec {
    fn gen() -> Self { gen_erec(LEN) }
    fn enc(&self, o: &mut Out) {
        match self { ERec::None => o.u8(0), ERec::Some(x) => { o.u8(1); (**x).enc(o) } ERec::Leaf(x) => { o.u8(2); x.enc(o) } }
    }
}
#[derive(Readable, Writable)] pub struct SRec { inner: Vec<SRec> }
fn gen_srec(d: usize) -> SRec {
    let n = choose(if d == 0 { 1 } else { 3 });
    SRec { inner: (0..n).map(|_| gen_srec(d - 1)).collect() }
}
impl Val for SRec {
    fn gen() -> Self { gen_srec(2) }
    fn enc(&self, o: &mut Out) { o.len(self.inner.len()); enc_items(&self.inner, o) }
}
/// recursion through several containers; no variant is a unit one
#[derive(Readable, Writable)] #[speedy(tag_type = u16)] pub enum ERecV { A(u32), B(Vec<ERecV>), C(Option<Box<ERecV>>), D { m: BTreeMap<u8, ERecV> } }
fn gen_erecv(d: usize) -> ERecV {
    match choose(if d == 0 { 2 } else { 4 }) {
        0 => ERecV::A(Val::gen()),
        1 => { let n = if d == 0 { 0 } else { choose(3) }; ERecV::B((0..n).map(|_| gen_erecv(d - 1)).collect()) }
        2 => ERecV::C(if choose(2) == 0 { None } else { Some(Box::new(gen_erecv(d - 1))) }),
        _ => ERecV::D { m: if choose(2) == 0 { BTreeMap::new() } else { BTreeMap::from([(Val::gen(), gen_erecv(d - 1))]) } },
    }
}
impl Val for ERecV {
    fn gen() -> Self { gen_erecv(1) }
    fn enc(&self, o: &mut Out) {
        match self {
            ERecV::A(x) => { o.u16(0); x.enc(o) }
            ERecV::B(x) => { o.u16(1); o.len(x.len()); enc_items(x, o) }
            ERecV::C(x) => { o.u16(2); match x { None => o.u8(0), Some(x) => { o.u8(1); (**x).enc(o) } } }
            ERecV::D { m } => { o.u16(3); o.len(m.len()); for (k, v) in m { k.enc(o); v.enc(o) } }
        }
    }
}
/// two types that contain each other
#[derive(Readable, Writable)] pub struct SMutA { id: u16, kids: Vec<EMutB> }
#[derive(Readable, Writable)] #[speedy(tag_type = u8)] pub enum EMutB { Leaf(u32), Node(Box<SMutA>) }
fn gen_smuta(d: usize) -> SMutA {
    let n = choose(if d == 0 { 1 } else { 3 });
    SMutA { id: Val::gen(), kids: (0..n).map(|_| if choose(2) == 0 { EMutB::Leaf(Val::gen()) } else { EMutB::Node(Box::new(gen_smuta(d - 1))) }).collect() }
}
impl Val for EMutB {
    fn gen() -> Self { if choose(2) == 0 { EMutB::Leaf(Val::gen()) } else { EMutB::Node(Box::new(gen_smuta(1))) } }
    fn enc(&self, o: &mut Out) { match self { EMutB::Leaf(x) => { o.u8(0); x.enc(o) } EMutB::Node(x) => { o.u8(1); (**x).enc(o) } } }
}
impl Val for SMutA {
    fn gen() -> Self { gen_smuta(1) }
    fn enc(&self, o: &mut Out) { self.id.enc(o); o.len(self.kids.len()); enc_items(&self.kids, o) }
}
#[derive(Readable, Writable)] pub enum ENone {}
#[derive(Readable, Writable)] #[speedy(tag_type = u16)] pub enum EGen<'a, T> { A(T), B { x: Cow<'a, str> } }
impl<'a, T: Val> Val for EGen<'a, T> {
    fn gen() -> Self { if choose(2) == 0 { EGen::A(Val::gen()) } else { EGen::B { x: Val::gen() } } }
    fn enc(&self, o: &mut Out) { match self { EGen::A(x) => { o.u16(0); x.enc(o) } EGen::B { x } => { o.u16(1); x.enc(o) } } }
}

// ---- length attributes
/// container with an explicit element count: how to generate one with n elements and to encode the elements
pub trait Cont: Sized {
    fn gen_n(n: usize) -> Self;
    fn n(&self) -> usize;
    fn items(&self, o: &mut Out);
}
impl Cont for String {
    fn gen_n(n: usize) -> Self { match String::from_utf8(byte_vec(n)) { Ok(s) => s, Err(_) => { assume(false); String::new() } } }
    fn n(&self) -> usize { self.len() }
    fn items(&self, o: &mut Out) { o.text(self) }
}
impl<T: Val> Cont for Vec<T> {
    fn gen_n(n: usize) -> Self { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(T::gen()) } v }
    fn n(&self) -> usize { self.len() }
    fn items(&self, o: &mut Out) { enc_items(self, o) }
}
impl<'a> Cont for Cow<'a, str> {
    fn gen_n(n: usize) -> Self { Cow::Owned(String::gen_n(n)) }
    fn n(&self) -> usize { self.len() }
    fn items(&self, o: &mut Out) { o.text(self) }
}
impl<'a, T: Val + Clone> Cont for Cow<'a, [T]> {
    fn gen_n(n: usize) -> Self { Cow::Owned(Vec::gen_n(n)) }
    fn n(&self) -> usize { self.len() }
    fn items(&self, o: &mut Out) { enc_items(self, o) }
}
impl<'a> Cont for &'a str {
    fn gen_n(n: usize) -> Self { Box::leak(String::gen_n(n).into_boxed_str()) }
    fn n(&self) -> usize { self.len() }
    fn items(&self, o: &mut Out) { o.text(self) }
}
impl<'a, T: Val> Cont for &'a [T] {
    fn gen_n(n: usize) -> Self { Box::leak(Vec::gen_n(n).into_boxed_slice()) }
    fn n(&self) -> usize { self.len() }
    fn items(&self, o: &mut Out) { enc_items(self, o) }
}
macro_rules! cont_coll { ($([$($g:tt)*] $t:ty, $x:ident, $ins:expr, $it:ident, $o:ident, $enc:expr;)*) => { $(
    impl<$($g)*> Cont for $t {
        fn gen_n(n: usize) -> Self { let mut $x = <$t>::default(); for _ in 0..n { $ins; } assume($x.len() == n); $x }
        fn n(&self) -> usize { self.len() }
        fn items(&self, $o: &mut Out) {
            let mut all: Vec<Vec<u8>> = self.iter().map(|$it| { let mut s = Out::new($o.be); s.canon = $o.canon; s.valid = $o.valid; { let $o = &mut s; $enc; } s.b }).collect();
            if $o.canon { all.sort() }
            for i in all { $o.raw(&i) }
        }
    }
    impl<'a, $($g)*> Cont for Cow<'a, $t> {
        fn gen_n(n: usize) -> Self { Cow::Owned(<$t as Cont>::gen_n(n)) }
        fn n(&self) -> usize { self.len() }
        fn items(&self, o: &mut Out) { (**self).items(o) }
    }
)* } }
/// Keys of maps hashed with the standard library's SipHash: concrete on every path.
fn hkey() -> u8 { [0, 1, 255][choose(3)] }
type HM = HashMap<u8, u8>;
type HS = HashSet<u8>;
cont_coll! {
    [] BTreeMap<u8, u16>, x, x.insert(u8::gen(), u16::gen()), it, o, { it.0.enc(o); it.1.enc(o) };
    [] BTreeSet<u16>, x, x.insert(u16::gen()), it, o, it.enc(o);
    [] HM, x, x.insert(hkey(), u8::gen()), it, o, { it.0.enc(o); it.1.enc(o) };
    [] HS, x, x.insert(hkey()), it, o, it.enc(o);
}
macro_rules! lval { ($lt:ident; $([$($g:tt)*] $t:ty;)*) => { $(
    impl<$($g)*> Val for $t {
        fn gen() -> Self { let n = choose(LEN + 1); Self { d: Cont::gen_n(n), t: Val::gen() } }
        fn enc(&self, o: &mut Out) { o.lt(Lt::$lt, self.d.n()); self.d.items(o); self.t.enc(o) }
    }
)* } }
macro_rules! lopt { ($lt:ident; $($t:ty;)*) => { $(
    impl Val for $t {
        fn gen() -> Self { if choose(2) == 0 { Self { d: None, t: Val::gen() } } else { let n = choose(LEN + 1); Self { d: Some(Cont::gen_n(n)), t: Val::gen() } } }
        fn enc(&self, o: &mut Out) {
            match &self.d { None => o.u8(0), Some(d) => { o.u8(1); o.lt(Lt::$lt, d.n()); d.items(o) } }
            self.t.enc(o)
        }
    }
)* } }
/// one struct per container and length attribute
macro_rules! len_types { ($($n:ident $at:ident $lt:ident;)*) => { $(
    pub mod $n {
        use super::*;
        #[derive(Readable, Writable)] pub struct LVec { #[speedy(length_type = $at)] d: Vec<u16>, t: u8 }
        #[derive(Readable, Writable)] pub struct LStr { #[speedy(length_type = $at)] d: String, t: u8 }
        #[derive(Readable, Writable)] pub struct LCow<'a> { #[speedy(length_type = $at)] d: Cow<'a, [u16]>, t: u8 }
        #[derive(Readable, Writable)] pub struct LCowStr<'a> { #[speedy(length_type = $at)] d: Cow<'a, str>, t: u8 }
        #[derive(Readable, Writable)] pub struct LRef<'a> { #[speedy(length_type = $at)] d: &'a [u8], t: u8 }
        #[derive(Readable, Writable)] pub struct LRefStr<'a> { #[speedy(length_type = $at)] d: &'a str, t: u8 }
        #[derive(Readable, Writable)] pub struct LBMap { #[speedy(length_type = $at)] d: BTreeMap<u8, u16>, t: u8 }
        #[derive(Readable, Writable)] pub struct LBSet { #[speedy(length_type = $at)] d: BTreeSet<u16>, t: u8 }
        #[derive(Readable, Writable)] pub struct LCowBMap<'a> { #[speedy(length_type = $at)] d: Cow<'a, BTreeMap<u8, u16>>, t: u8 }
        #[derive(Readable, Writable)] pub struct LCowBSet<'a> { #[speedy(length_type = $at)] d: Cow<'a, BTreeSet<u16>>, t: u8 }
        #[derive(Readable, Writable)] pub struct LHMap { #[speedy(length_type = $at)] d: HashMap<u8, u8>, t: u8 }
        #[derive(Readable, Writable)] pub struct LHSet { #[speedy(length_type = $at)] d: HashSet<u8>, t: u8 }
        #[derive(Readable, Writable)] pub struct LCowHMap<'a> { #[speedy(length_type = $at)] d: Cow<'a, HashMap<u8, u8>>, t: u8 }
        #[derive(Readable, Writable)] pub struct LCowHSet<'a> { #[speedy(length_type = $at)] d: Cow<'a, HashSet<u8>>, t: u8 }
        #[derive(Readable, Writable)] pub struct LOptVec { #[speedy(length_type = $at)] d: Option<Vec<u16>>, t: u8 }
        #[derive(Readable, Writable)] pub struct LOptStr { #[speedy(length_type = $at)] d: Option<String>, t: u8 }
        lval! { $lt; [] LVec; [] LStr; ['a] LCow<'a>; ['a] LCowStr<'a>; ['a] LRef<'a>; ['a] LRefStr<'a>; [] LBMap; [] LBSet; ['a] LCowBMap<'a>; ['a] LCowBSet<'a>; [] LHMap; [] LHSet; ['a] LCowHMap<'a>; ['a] LCowHSet<'a>; }
        lopt! { $lt; LOptVec; LOptStr; }
    }
)* } }
len_types! { l7 u7 U7; l8 u8 U8; l16 u16 U16; l32 u32 U32; l64 u64 U64; lv u64_varint V; }

/// the length of the container is an expression over the fields before it
macro_rules! len_exprs { ($([$($g:tt)*] $n:ty, $st:item;)*) => { $(
    #[derive(Readable, Writable)] $st
    impl<$($g)*> Val for $n {
        fn gen() -> Self { let n = choose(2 * LEN); Self { n: n as u8, d: Cont::gen_n(n / 2), t: Val::gen() } }
        fn enc(&self, o: &mut Out) { o.u8(self.n); self.d.items(o); self.t.enc(o) }
    }
)* } }
len_exprs! {
    [] XVec, pub struct XVec { n: u8, #[speedy(length = n / 2)] d: Vec<u16>, t: u16 };
    [] XStr, pub struct XStr { n: u8, #[speedy(length = n / 2)] d: String, t: u16 };
    [] XBools, pub struct XBools { n: u8, #[speedy(length = n / 2)] d: Vec<bool>, t: u16 };
    ['a] XCow<'a>, pub struct XCow<'a> { n: u8, #[speedy(length = n / 2)] d: Cow<'a, [u32]>, t: u16 };
    ['a] XCowStr<'a>, pub struct XCowStr<'a> { n: u8, #[speedy(length = n / 2)] d: Cow<'a, str>, t: u16 };
    ['a] XRef<'a>, pub struct XRef<'a> { n: u8, #[speedy(length = n / 2)] d: &'a [u8], t: u16 };
    ['a] XRefStr<'a>, pub struct XRefStr<'a> { n: u8, #[speedy(length = n / 2)] d: &'a str, t: u16 };
    [] XBMap, pub struct XBMap { n: u8, #[speedy(length = n / 2)] d: BTreeMap<u8, u16>, t: u16 };
    [] XBSet, pub struct XBSet { n: u8, #[speedy(length = n / 2)] d: BTreeSet<u16>, t: u16 };
    ['a] XCowBMap<'a>, pub struct XCowBMap<'a> { n: u8, #[speedy(length = n / 2)] d: Cow<'a, BTreeMap<u8, u16>>, t: u16 };
    ['a] XCowBSet<'a>, pub struct XCowBSet<'a> { n: u8, #[speedy(length = n / 2)] d: Cow<'a, BTreeSet<u16>>, t: u16 };
    [] XHMap, pub struct XHMap { n: u8, #[speedy(length = n / 2)] d: HashMap<u8, u8>, t: u16 };
    [] XHSet, pub struct XHSet { n: u8, #[speedy(length = n / 2)] d: HashSet<u8>, t: u16 };
}
/// length used by a tuple struct, and by two fields
#[derive(Readable, Writable)] pub struct XTup(pub u8, #[speedy(length = t0)] pub Vec<u16>, #[speedy(length = t0 / 2)] pub String);
impl Val for XTup {
    fn gen() -> Self { let n = choose(LEN + 1); XTup(n as u8, Cont::gen_n(n), Cont::gen_n(n / 2)) }
    fn enc(&self, o: &mut Out) { o.u8(self.0); self.1.items(o); self.2.items(o) }
}

// ---- until end of input
macro_rules! until_eof { ($([$($g:tt)*] $n:ty, $st:item;)*) => { $(
    #[derive(Readable, Writable)] $st
    impl<$($g)*> Val for $n {
        fn gen() -> Self { let n = choose(LEN + 1); Self { h: Val::gen(), d: Cont::gen_n(n) } }
        fn enc(&self, o: &mut Out) { self.h.enc(o); self.d.items(o) }
    }
)* } }
until_eof! {
    [] UVec, pub struct UVec { h: u8, #[speedy(length = ..)] d: Vec<u16> };
    [] UBytes, pub struct UBytes { h: u16, #[speedy(length = ..)] d: Vec<u8> };
    [] UBools, pub struct UBools { h: u16, #[speedy(length = ..)] d: Vec<bool> };
    [] UStr, pub struct UStr { h: u8, #[speedy(length = ..)] d: String };
    ['a] UCow<'a>, pub struct UCow<'a> { h: u8, #[speedy(length = ..)] d: Cow<'a, [u16]> };
    ['a] UCowB<'a>, pub struct UCowB<'a> { h: u8, #[speedy(length = ..)] d: Cow<'a, [u8]> };
    ['a] UCowStr<'a>, pub struct UCowStr<'a> { h: u8, #[speedy(length = ..)] d: Cow<'a, str> };
    ['a] URef<'a>, pub struct URef<'a> { h: u8, #[speedy(length = ..)] d: &'a [u8] };
    ['a] URefStr<'a>, pub struct URefStr<'a> { h: u8, #[speedy(length = ..)] d: &'a str };
    [] UBMap, pub struct UBMap { h: u8, #[speedy(length = ..)] d: BTreeMap<u8, u16> };
    [] UBSet, pub struct UBSet { h: u8, #[speedy(length = ..)] d: BTreeSet<u16> };
    [] UHSet, pub struct UHSet { h: u8, #[speedy(length = ..)] d: HashSet<u8> };
    ['a] UCowBSet<'a>, pub struct UCowBSet<'a> { h: u8, #[speedy(length = ..)] d: Cow<'a, BTreeSet<u16>> };
}

// ---- other field attributes
#[derive(Readable, Writable)] pub struct AVarint { a: u8, #[speedy(varint)] v: u64, b: u16 }
impl Val for AVarint {
    fn gen() -> Self { AVarint { a: Val::gen(), v: Val::gen(), b: Val::gen() } }
    fn enc(&self, o: &mut Out) { self.a.enc(o); o.varint(self.v); self.b.enc(o) }
}
#[derive(Readable, Writable)] pub struct AVarintOpt { #[speedy(varint)] v: u64, #[speedy(length_type = u64_varint)] w: Vec<u8> }
impl Val for AVarintOpt {
    fn gen() -> Self { AVarintOpt { v: Val::gen(), w: Val::gen() } }
    fn enc(&self, o: &mut Out) { o.varint(self.v); o.varint(self.w.len() as u64); enc_items(&self.w, o) }
}
#[derive(Readable, Writable)] pub struct ASkip { a: u8, #[speedy(skip)] b: u32, c: u16, #[speedy(skip)] d: Vec<u8> }
impl Val for ASkip {
    // skipped fields come back as their default
    fn gen() -> Self { ASkip { a: Val::gen(), b: 0, c: Val::gen(), d: Vec::new() } }
    fn enc(&self, o: &mut Out) { self.a.enc(o); if o.canon { self.b.enc(o); self.d.enc(o) } self.c.enc(o) }
}
#[derive(Readable, Writable)] pub struct ADefEof { a: u8, #[speedy(default_on_eof)] b: u16, #[speedy(default_on_eof)] c: u32 }
rec! { [] ADefEof { a, b, c }; }
#[derive(Readable, Writable)] pub struct ADefEofVec { a: u8, #[speedy(default_on_eof)] d: Vec<u16>, #[speedy(default_on_eof)] o: Option<u16> }
rec! { [] ADefEofVec { a, d, o }; }
#[derive(Readable, Writable)] pub struct ADefPfx { a: u8, #[speedy(constant_prefix = "AB", default_on_eof)] b: u16 }
impl Val for ADefPfx {
    fn gen() -> Self { ADefPfx { a: Val::gen(), b: Val::gen() } }
    fn enc(&self, o: &mut Out) { self.a.enc(o); o.raw(b"AB"); self.b.enc(o) }
}
#[derive(Readable, Writable)] pub struct ADefMore { #[speedy(default_on_eof)] n: ANest, #[speedy(default_on_eof, length_type = u8)] d: Vec<u8>, #[speedy(constant_prefix = 7_u8, default_on_eof)] o: Option<u8>, #[speedy(default_on_eof, varint)] v: u64 }
#[derive(Readable, Writable, Default)] pub struct ANest { a: u8, b: u16 }
rec! { [] ANest { a, b }; }
impl Val for ADefMore {
    fn gen() -> Self { ADefMore { n: Val::gen(), d: Val::gen(), o: Val::gen(), v: Val::gen() } }
    fn enc(&self, o: &mut Out) { self.n.enc(o); o.u8(self.d.len() as u8); enc_items(&self.d, o); o.u8(7); self.o.enc(o); o.varint(self.v as u64) }
}
#[derive(Readable, Writable)] pub enum EDefEof { A { #[speedy(default_on_eof)] x: u16 }, B(u8, #[speedy(default_on_eof)] Option<bool>), #[speedy(tag = 9)] C }
impl Val for EDefEof {
    fn gen() -> Self { match choose(3) { 0 => EDefEof::A { x: Val::gen() }, 1 => EDefEof::B(Val::gen(), Val::gen()), _ => EDefEof::C } }
    fn enc(&self, o: &mut Out) { match self { EDefEof::A { x } => { o.u32(0); x.enc(o) } EDefEof::B(a, b) => { o.u32(1); a.enc(o); b.enc(o) } EDefEof::C => o.u32(9) } }
}
macro_rules! prefixed { ($($n:ident $lit:tt, $bytes:expr;)*) => { $(
    #[derive(Readable, Writable)] pub struct $n { a: u8, #[speedy(constant_prefix = $lit)] v: u16, b: u8 }
    impl Val for $n {
        fn gen() -> Self { $n { a: Val::gen(), v: Val::gen(), b: Val::gen() } }
        fn enc(&self, o: &mut Out) { self.a.enc(o); o.raw($bytes); self.v.enc(o); self.b.enc(o) }
    }
)* } }
prefixed! {
    CStr "ABC", b"ABC"; CUtf "\u{3b1}\0z", &[0xce, 0xb1, 0, b'z']; CBytes b"A\xff\0", &[b'A', 0xff, 0]; CChar '\u{82fa}', &[0xe8, 0x8b, 0xba]; CByte b'A', b"A";
    CTrue true, &[1]; CFalse false, &[0]; CU8 10_u8, &[10]; CU8b 255_u8, &[255]; CEmpty "", &[];
}
#[derive(Readable, Writable)] pub struct CI8 { a: u8, #[speedy(constant_prefix = -1_i8)] v: u16, b: u8 }
impl Val for CI8 {
    fn gen() -> Self { CI8 { a: Val::gen(), v: Val::gen(), b: Val::gen() } }
    fn enc(&self, o: &mut Out) { self.a.enc(o); o.raw(&[0xff]); self.v.enc(o); self.b.enc(o) }
}
#[derive(Readable, Writable)] pub struct CUnit { #[speedy(constant_prefix = "MAGIC")] v: (), #[speedy(constant_prefix = "!", length_type = u8)] d: Vec<u8> }
impl Val for CUnit {
    fn gen() -> Self { CUnit { v: (), d: Val::gen() } }
    fn enc(&self, o: &mut Out) { o.raw(b"MAGIC!"); o.u8(self.d.len() as u8); enc_items(&self.d, o) }
}
#[derive(Readable, Writable)] pub struct COpt { #[speedy(constant_prefix = b"Op")] v: Option<u16>, w: u8 }
impl Val for COpt {
    fn gen() -> Self { COpt { v: Val::gen(), w: Val::gen() } }
    fn enc(&self, o: &mut Out) { o.raw(b"Op"); self.v.enc(o); self.w.enc(o) }
}
