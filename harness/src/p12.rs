//! P12: tags, constant prefixes and skipped fields.
use crate::props::{endian, is_be};
use crate::src::*;
use crate::sx::*;
use crate::val::Out;
use speedy::{Endianness, IsEof, Readable, Writable};

#[derive(Copy, Clone, PartialEq)]
pub enum Tag { U7, U8, U16, U32, U64, V }
#[derive(PartialEq, Clone, Copy)]
pub enum Fail { Eof, Bad }
fn number(b: &[u8], be: bool) -> u64 {
    let mut v = 0;
    for i in 0..b.len() { v |= (b[i] as u64) << (8 * if be { b.len() - 1 - i } else { i } as u32) }
    v
}
/// The tag at the start of `b`, and its size.
fn tag_at(t: Tag, b: &[u8], be: bool) -> Result<(u64, usize), Fail> {
    let n = match t {
        Tag::U7 | Tag::U8 => 1, Tag::U16 => 2, Tag::U32 => 4, Tag::U64 => 8,
        Tag::V => { if b.is_empty() { return Err(Fail::Eof) } 1 + b[0].leading_ones() as usize }
    };
    if b.len() < n { return Err(Fail::Eof) }
    if t != Tag::V { return Ok((number(&b[..n], be), n)) }
    let low = number(&b[1..n], false);
    Ok((if n > 8 { low } else { low | ((b[0] & (0x7F >> (n - 1) as u32)) as u64) << (8 * (n - 1) as u32) }, n))
}
fn put_tag(t: Tag, v: u64, o: &mut Out) {
    match t { Tag::U7 | Tag::U8 => o.u8(v as u8), Tag::U16 => o.u16(v as u16), Tag::U32 => o.u32(v as u32), Tag::U64 => o.u64(v), Tag::V => o.varint(v) }
}
/// The `number`-th variant of `TAGS`; a variant has a `u8` when its number is odd.
pub trait Tagged: Sized {
    const KIND: Tag;
    const TAGS: &'static [u64];
    fn make(n: usize, x: u8) -> Self;
    fn number(&self) -> (usize, u8);
}
macro_rules! enums { ($($n:ident $k:ident [$($a:tt)*] { $($(#[$va:meta])* $v:ident $([= $d:tt])? $tag:literal, $(#[$wa:meta])* $w:ident;)* })*) => { $(
    #[derive(Readable, Writable)] $($a)*
    pub enum $n { $($(#[$va])* $v $(= $d)?, $(#[$wa])* $w(u8),)* }
    impl Tagged for $n {
        const KIND: Tag = Tag::$k;
        const TAGS: &'static [u64] = &[$($tag, $tag + 1),*];
        fn make(n: usize, x: u8) -> Self { let mut i = 0; let _ = &mut i; $(if n == i { return $n::$v } i += 1; if n == i { return $n::$w(x) } i += 1;)* let _ = i; loop {} }
        fn number(&self) -> (usize, u8) { let mut i = 0; $(if let $n::$v = self { return (i, 0) } i += 1; if let $n::$w(x) = self { return (i, *x) } i += 1;)* let _ = i; loop {} }
    }
)* } }
// every second variant's tag is one more than that of the variant before it
enums! {
    Plain U32 [] { A 0, B; C 2, D; }
    Small U8 [#[speedy(tag_type = u8)]] { A 0, B; C 2, D; }
    Seven U7 [#[speedy(tag_type = u7)]] { A 0, B; #[speedy(tag = 126)] C 126, D; }
    Bytes U8 [#[speedy(tag_type = u8)]] { #[speedy(tag = 254)] A 254, B; #[speedy(tag = 7)] C 7, D; #[speedy(tag = 100)] E 100, F; }
    Words U16 [#[speedy(tag_type = u16)]] { #[speedy(tag = 0x1234)] A 0x1234, B; #[speedy(tag = 0x3412)] C 0x3412, D; #[speedy(tag = 65534)] E 65534, F; #[speedy(tag = 254)] G 254, H; }
    Longs U32 [#[speedy(tag_type = u32)]] { #[speedy(tag = 0x12345678)] A 0x12345678, B; #[speedy(tag = 0x78563412)] C 0x78563412, D; #[speedy(tag = 0xFFFFFFFE)] E 0xFFFFFFFE, F; #[speedy(tag = 0x5678)] G 0x5678, H; }
    Quads U64 [#[speedy(tag_type = u64)]] { #[speedy(tag = 0x123456789ABCDEF0)] A 0x123456789ABCDEF0, B; #[speedy(tag = 0xFFFFFFFFFFFFFFFE)] C 0xFFFFFFFFFFFFFFFE, D; #[speedy(tag = 0x9ABCDEF0)] E 0x9ABCDEF0, F; #[speedy(tag = 0)] G 0, H; }
    Vars V [#[speedy(tag_type = u64_varint)]] { #[speedy(tag = 127)] A 127, B; #[speedy(tag = 16383)] C 16383, D; #[speedy(tag = 0xFFFFFFFFFFFFFFFE)] E 0xFFFFFFFFFFFFFFFE, F; #[speedy(tag = 0x00FFFFFFFFFFFFFF)] G 0x00FFFFFFFFFFFFFF, H; #[speedy(tag = 0)] I 0, J; }
    Unordered U8 [#[speedy(tag_type = u8)]] { #[speedy(tag = 9)] A 9, B; #[speedy(tag = 0)] C 0, D; #[speedy(tag = 3)] E 3, F; }
}
/// Discriminants and tags together: an explicit tag wins, and counting goes on from it.
#[derive(Readable, Writable, Clone, Copy, PartialEq)]
#[speedy(tag_type = u16)]
pub enum Disc { A = 5, B, #[speedy(tag = 300)] C = 9, D, E = 20, #[speedy(tag = 40)] F, G }
const DISC: [(Disc, u64); 7] = [(Disc::A, 5), (Disc::B, 6), (Disc::C, 300), (Disc::D, 301), (Disc::E, 20), (Disc::F, 40), (Disc::G, 41)];

fn tags<T: Tagged + for<'a> Readable<'a, Endianness> + Writable<Endianness>>() {
    expect("known");
    expect("unknown");
    expect("short");
    let e = endian();
    let be = is_be(e);
    // reading
    let max = match T::KIND { Tag::U7 | Tag::U8 => 1, Tag::U16 => 2, Tag::U32 => 4, Tag::U64 => 8, Tag::V => 9 };
    let b = byte_vec(choose(max + 3));
    let k = choose(SOURCES);
    let want = tag_at(T::KIND, &b, be);
    let (r, used) = read::<_, T>(k, e, &b);
    let which = want.ok().and_then(|(t, n)| T::TAGS.iter().position(|x| *x == t).map(|i| (i, n)));
    match (which, want, r) {
        (Some((i, n)), _, r) if i % 2 == 0 || b.len() > n => match r {
            Ok(v) => {
                cover("known");
                let (j, x) = v.number();
                check(i == j, "a tag is read as another variant");
                check(i % 2 == 0 || x == b[n], "the value of the variant is wrong");
                if let Some(u) = used { check(u == n + i % 2, "the number of bytes consumed is wrong") }
            }
            Err(_) => check(false, "a tag is not recognised"),
        },
        (None, Ok((_, n)), Ok(_)) => { let _ = n; check(false, "an unknown tag is accepted") }
        (None, Ok((_, n)), Err(x)) => {
            cover("unknown");
            check(!x.is_eof(), "an unknown tag is reported as the end of input");
            if let Some(u) = used { check(u <= n, "more than the tag is consumed for an unknown tag") }
        }
        (_, _, Ok(_)) => check(false, "a value is read beyond the end of input"),
        (_, _, Err(x)) => { cover("short"); check(k < 2 && b.len() < T::minimum_bytes_needed() || x.is_eof(), "the end of input is reported as another error") }
    }
    // writing
    let i = choose(T::TAGS.len());
    let x = any_u8();
    let mut o = Out::new(be);
    put_tag(T::KIND, T::TAGS[i], &mut o);
    if i % 2 == 1 { o.u8(x) }
    match write(choose(SINKS), e, &T::make(i, x)) {
        Ok(w) => { observe_bytes(&w); check(eq(&w, &o.b), "a variant is written with another tag") }
        Err(_) => check(false, "a variant cannot be written"),
    }
}
// ---------------------------------------------------------------- peeked tags
macro_rules! peeks { ($($n:ident $k:ident $t:tt $ft:ident $va:literal $vb:literal;)*) => { $(
    #[derive(Readable, Writable)] #[speedy(tag_type = $t, peek_tag)]
    pub enum $n { #[speedy(tag = $va)] A { tag: $ft, x: u8 }, #[speedy(tag = $vb)] B($ft, u16) }
    impl Peeked for $n {
        const KIND: Tag = Tag::$k;
        const TAGS: [u64; 2] = [$va, $vb];
        fn parts(&self) -> (usize, u64, u16) { match self { $n::A { tag, x } => (0, *tag as u64, *x as u16), $n::B(t, y) => (1, *t as u64, *y) } }
        fn make(n: usize, x: u16) -> Self { if n == 0 { $n::A { tag: $va, x: x as u8 } } else { $n::B($vb, x) } }
    }
)* } }
pub trait Peeked: Sized {
    const KIND: Tag;
    const TAGS: [u64; 2];
    fn parts(&self) -> (usize, u64, u16);
    fn make(n: usize, x: u16) -> Self;
}
peeks! { Peek7 U7 u7 u8 127 3; Peek8 U8 u8 u8 200 0; Peek16 U16 u16 u16 0x102 0x201; Peek32 U32 u32 u32 0x01020304 4; Peek64 U64 u64 u64 0x0102030405060708 0xFFFFFFFFFFFFFFFF; }
fn peeked<T: Peeked + for<'a> Readable<'a, Endianness> + Writable<Endianness>>() {
    expect("known");
    expect("unknown");
    let e = endian();
    let be = is_be(e);
    let w = match T::KIND { Tag::U7 | Tag::U8 => 1, Tag::U16 => 2, Tag::U32 => 4, _ => 8 };
    let b = byte_vec(choose(w + 4));
    let k = choose(SOURCES);
    let (r, used) = read::<_, T>(k, e, &b);
    match (tag_at(T::KIND, &b, be), r) {
        (Ok((t, _)), r) if t == T::TAGS[0] || t == T::TAGS[1] => {
            let i = (t == T::TAGS[1]) as usize;
            if b.len() >= w + 1 + i {
                match r {
                    Ok(v) => {
                        cover("known");
                        let (j, t2, x) = v.parts();
                        check(i == j, "a tag is read as another variant");
                        check(t2 == t, "the peeked tag is not left in the input");
                        check(x as u64 == number(&b[w..w + 1 + i], be), "the value of the variant is wrong");
                        if let Some(u) = used { check(u == w + 1 + i, "the number of bytes consumed is wrong") }
                    }
                    // the advertised minimum of such an enum counts the tag twice
                    Err(_) => check(k < 2 && b.len() < T::minimum_bytes_needed(), "a tag is not recognised"),
                }
            } else {
                match r { Ok(_) => check(false, "a value is read beyond the end of input"), Err(x) => check(k < 2 && b.len() < T::minimum_bytes_needed() || x.is_eof(), "the end of input is reported as another error") }
            }
        }
        (Ok(_), Ok(_)) => check(false, "an unknown tag is accepted"),
        (Ok(_), Err(x)) => {
            cover("unknown");
            check(!x.is_eof(), "an unknown tag is reported as the end of input");
            if k < 2 || k > 5 { if let Some(u) = used { check(u == 0, "an unknown peeked tag is consumed") } }
        }
        (Err(_), Ok(_)) => check(false, "a value is read beyond the end of input"),
        (Err(_), Err(x)) => check(k < 2 && b.len() < T::minimum_bytes_needed() || x.is_eof(), "the end of input is reported as another error"),
    }
    let (i, x) = (choose(2), any_u16());
    let mut o = Out::new(be);
    put_tag(T::KIND, T::TAGS[i], &mut o);
    if i == 0 { o.u8(x as u8) } else { o.u16(x) }
    match write(choose(SINKS), e, &T::make(i, x)) {
        Ok(w) => check(eq(&w, &o.b), "a variant with a peeked tag is written differently"),
        Err(_) => check(false, "a variant cannot be written"),
    }
}
/// A peeked tag further inside: nothing in front of or behind it may be lost.
#[derive(Readable)] pub struct Inside { a: u8, p: Peek16, b: u8, q: Vec<Peek8> }
#[derive(Readable)] #[speedy(tag_type = u8)] pub enum Outer { #[speedy(tag = 9)] A(Peek8, u8), #[speedy(tag = 8)] B(u8) }
#[derive(Readable)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum PeekVar { #[speedy(tag = 300)] A(#[speedy(varint)] u64), #[speedy(tag = 5)] B(u16) }

// ---------------------------------------------------------------- prefixes
macro_rules! prefixes { ($($n:ident $lit:tt $bytes:expr;)*) => { $(
    #[derive(Readable, Writable)] pub struct $n { a: u8, #[speedy(constant_prefix = $lit)] v: u16, b: u8 }
    impl Prefixed for $n {
        const PREFIX: &'static [u8] = $bytes;
        fn make(a: u8, v: u16, b: u8) -> Self { $n { a, v, b } }
        fn parts(&self) -> (u8, u16, u8) { (self.a, self.v, self.b) }
    }
)* } }
pub trait Prefixed: Sized { const PREFIX: &'static [u8]; fn make(a: u8, v: u16, b: u8) -> Self; fn parts(&self) -> (u8, u16, u8); }
prefixes! { Cstr "PREFIX" b"PREFIX"; Cutf "\u{3b1}z" &[0xce, 0xb1, b'z']; Cbytes b"\xff\x00\xff" &[0xff, 0, 0xff]; Cchar '\u{82fa}' &[0xe8, 0x8b, 0xba]; Cbyte b'A' b"A"; Ctrue true &[1]; Cfalse false &[0]; Cu8 255_u8 &[255]; Czero 0_u8 &[0]; Cempty "" &[]; Clong "0123456789ABCDEF" b"0123456789ABCDEF"; }
#[derive(Readable, Writable)] #[speedy(tag_type = u8)] pub enum InVariant { #[speedy(tag = 1)] A(#[speedy(constant_prefix = "no")] u16, u8), #[speedy(tag = 2)] B }
impl Prefixed for InVariant { const PREFIX: &'static [u8] = b"no"; fn make(_: u8, v: u16, b: u8) -> Self { InVariant::A(v, b) } fn parts(&self) -> (u8, u16, u8) { match self { InVariant::A(v, b) => (1, *v, *b), InVariant::B => (2, 0, 0) } } }
#[derive(Readable, Writable)] pub struct InTuple(u8, #[speedy(constant_prefix = "ab")] u16, #[speedy(constant_prefix = "")] u8);
impl Prefixed for InTuple { const PREFIX: &'static [u8] = b"ab"; fn make(a: u8, v: u16, b: u8) -> Self { InTuple(a, v, b) } fn parts(&self) -> (u8, u16, u8) { (self.0, self.1, self.2) } }
#[derive(Readable, Writable)] #[repr(C)] pub struct InC { #[speedy(skip)] s: u32, a: u8, #[speedy(constant_prefix = "c")] v: u16, b: u8 }
impl Prefixed for InC { const PREFIX: &'static [u8] = b"c"; fn make(a: u8, v: u16, b: u8) -> Self { InC { s: any_u32(), a, v, b } } fn parts(&self) -> (u8, u16, u8) { check(self.s == 0, "a skipped field is not its default"); (self.a, self.v, self.b) } }
fn prefixed<T: Prefixed + for<'a> Readable<'a, Endianness> + Writable<Endianness>>(first: Option<u8>) {
    expect("accepted");
    let e = endian();
    let n = T::PREFIX.len();
    let mut b = byte_vec(choose(n + 6));
    if let (Some(x), Some(y)) = (first, b.first_mut()) { *y = x }
    let k = choose(SOURCES);
    let (r, used) = read::<_, T>(k, e, &b);
    let right = b.len() > n && eq(&b[1..n + 1], T::PREFIX);
    match r {
        Ok(v) => {
            cover("accepted");
            check(b.len() >= n + 4, "a value is read beyond the end of input");
            check(right, "something else than the prefix is accepted");
            check(v.parts() == (b[0], number(&b[n + 1..n + 3], is_be(e)) as u16, b[n + 3]), "the value is wrong");
            if let Some(u) = used { check(u == n + 4, "the number of bytes consumed is wrong") }
        }
        Err(x) => {
            check(!(right && b.len() >= n + 4), "the prefix is rejected");
            if b.len() >= n + 4 { cover("rejected"); check(!x.is_eof(), "a wrong prefix is reported as the end of input") }
            else if right || b.len() <= n { check(k < 2 && b.len() < T::minimum_bytes_needed() || x.is_eof(), "the end of input is reported as another error") }
        }
    }
    let (a, v, c) = (first.unwrap_or(any_u8()), any_u16(), any_u8());
    let mut o = Out::new(is_be(e));
    o.u8(a); o.raw(T::PREFIX); o.u16(v); o.u8(c);
    match write(choose(SINKS), e, &T::make(a, v, c)) {
        Ok(w) => check(eq(&w, &o.b), "the prefix or a field is written differently"),
        Err(_) => check(false, "a value with a prefix cannot be written"),
    }
}
// ---------------------------------------------------------------- skipped fields
/// Neither readable nor writable, and with a default that is not zero.
#[derive(PartialEq, Clone, Debug)] pub struct Own(u32);
impl Default for Own { fn default() -> Own { Own(0xABCD) } }
#[derive(Readable, Writable)] pub struct SkipA { #[speedy(skip)] x: Own, a: u8, #[speedy(skip)] y: Vec<Own>, b: u16, #[speedy(skip)] z: Own }
#[derive(Readable, Writable)] pub struct SkipT(#[speedy(skip)] Own, u8, #[speedy(skip)] Option<Own>, u16);
#[derive(Readable, Writable)] #[repr(transparent)] pub struct SkipOnly { #[speedy(skip)] x: Own }
#[derive(Readable, Writable)] #[speedy(tag_type = u8)] pub enum SkipE { A(u8, #[speedy(skip)] Own, u16), B { #[speedy(skip)] x: Own }, #[speedy(tag = 9)] C }
#[derive(Readable, Writable)] #[repr(C)] pub struct SkipC { a: u8, #[speedy(skip)] b: u8, c: u16 }
#[derive(Readable, Writable)] pub struct SkipVec { #[speedy(length_type = u8)] v: Vec<SkipC>, t: u8 }
/// Writes `v` (whose skipped fields hold anything) and expects `want`, which must read back with defaults.
fn skipped<T: Writable<Endianness> + for<'a> Readable<'a, Endianness>>(e: Endianness, v: T, want: Out, same: impl Fn(&T) -> bool) {
    expect("done");
    check(matches!(Writable::<Endianness>::bytes_needed(&v), Ok(n) if n == want.b.len()), "the size counts a skipped field");
    match write(choose(SINKS), e, &v) {
        Ok(w) => check(eq(&w, &want.b), "a skipped field changes what is written"),
        Err(_) => check(false, "a value with a skipped field cannot be written"),
    }
    let (r, used) = read::<_, T>(choose(SOURCES), e, &want.b);
    match r {
        Ok(x) => { check(same(&x), "a skipped field is not its default, or another field is wrong"); if let Some(u) = used { check(u == want.b.len(), "a skipped field takes bytes") } }
        Err(_) => check(false, "a value with a skipped field is rejected"),
    }
    cover("done");
}
crate::entries! {
    tag_plain { tags::<Plain>() } tag_small { tags::<Small>() } tag_seven { tags::<Seven>() } tag_bytes { tags::<Bytes>() } tag_words { tags::<Words>() } tag_longs { tags::<Longs>() } tag_quads { tags::<Quads>() } tag_vars { tags::<Vars>() } tag_unordered { tags::<Unordered>() }
    tag_disc {
        expect("known"); expect("unknown");
        let e = endian();
        let b = bytes::<2>();
        let t = number(&b, is_be(e));
        match (read::<_, Disc>(choose(SOURCES), e, &b).0, DISC.iter().find(|x| x.1 == t)) {
            (Ok(v), Some((d, _))) => { cover("known"); check(v == *d, "a tag is read as another variant") }
            (Ok(_), None) => check(false, "an unknown tag is accepted"),
            (Err(_), Some(_)) => check(false, "a tag is not recognised"),
            (Err(x), None) => { cover("unknown"); check(!x.is_eof(), "an unknown tag is reported as the end of input") }
        }
        let (d, t) = DISC[choose(7)];
        let mut o = Out::new(is_be(e));
        o.u16(t as u16);
        check(matches!(write(choose(SINKS), e, &d), Ok(w) if eq(&w, &o.b)), "a variant is written with another tag");
    }
    peek_u7 { peeked::<Peek7>() } peek_u8 { peeked::<Peek8>() } peek_u16 { peeked::<Peek16>() } peek_u32 { peeked::<Peek32>() } peek_u64 { peeked::<Peek64>() }
    peek_inside {
        expect("read");
        let e = endian();
        let d = bytes::<12>();
        let mut o = Out::new(is_be(e));
        let (i, n) = (choose(2), choose(3));
        o.u8(d[0]);
        if i == 0 { o.u16(0x102); o.u8(d[1]) } else { o.u16(0x201); o.u16(d[1] as u16) }
        o.u8(d[2]);
        o.u32(n as u32);
        for j in 0..n { if (i + j) % 2 == 0 { o.u8(200); o.u8(d[3 + j]) } else { o.u8(0); o.u16(d[3 + j] as u16) } }
        let (r, used) = read::<_, Inside>(choose(SOURCES), e, &o.b);
        match r {
            Ok(v) => {
                cover("read");
                check(v.a == d[0] && v.b == d[2] && v.q.len() == n, "fields around a peeked tag are wrong");
                check(v.p.parts() == (i, if i == 0 { 0x102 } else { 0x201 }, d[1] as u16), "a peeked enum inside is wrong");
                for j in 0..n { check(v.q[j].parts() == ((i + j) % 2, if (i + j) % 2 == 0 { 200 } else { 0 }, d[3 + j] as u16), "a peeked enum in a vector is wrong") }
                if let Some(u) = used { check(u == o.b.len(), "the number of bytes consumed is wrong") }
            }
            // the minimum of such an enum counts the tag twice
            Err(_) => check(false, "a value with peeked tags is rejected"),
        }
    }
    peek_outer {
        expect("read");
        let e = endian();
        let d = bytes::<3>();
        let (r, used) = read::<_, Outer>(choose(SOURCES), e, &[9, 200, d[0], d[1], d[2]]);
        match r {
            Ok(Outer::A(p, x)) => { cover("read"); check(p.parts() == (0, 200, d[0] as u16) && x == d[1], "an enum with a peeked tag in a variant is wrong"); if let Some(u) = used { check(u == 4, "the number of bytes consumed is wrong") } }
            _ => check(false, "an enum with a peeked tag in a variant is rejected"),
        }
    }
    peek_varint {
        expect("known"); expect("unknown");
        let e = endian();
        let b = byte_vec(choose(11));
        let k = choose(SOURCES);
        let (r, used) = read::<_, PeekVar>(k, e, &b);
        match (tag_at(Tag::V, &b, false), r) {
            (Ok((300, n)), Ok(PeekVar::A(x))) => { cover("known"); check(x == 300, "the peeked tag is not left in the input"); if let Some(u) = used { check(u == n, "the number of bytes consumed is wrong") } }
            (Ok((5, _)), Ok(PeekVar::B(x))) => { cover("known"); check(x as u64 == number(&b[..2], is_be(e)), "the peeked tag is not left in the input"); if let (Some(u), true) = (used, k < 2 || k > 5) { check(u == 2, "the number of bytes consumed is wrong") } }
            (_, Ok(_)) => check(false, "a peeked tag is read as another variant"),
            (Ok((300, _)), Err(_)) => check(k < 2 && b.len() < 2 + least(), "a peeked tag is not recognised"),
            (Ok((5, _)), Err(x)) => check(b.len() < 2 && (x.is_eof() || k < 2) || k < 2 && b.len() < least(), "a peeked tag is not recognised"),
            (Ok(_), Err(x)) => { cover("unknown"); check(!x.is_eof(), "an unknown tag is reported as the end of input") }
            (Err(_), Err(x)) => check(k < 2 && b.len() < least() || x.is_eof(), "the end of input is reported as another error"),
        }
    }
    pfx_str { prefixed::<Cstr>(None) } pfx_utf { prefixed::<Cutf>(None) } pfx_bytes { prefixed::<Cbytes>(None) } pfx_char { prefixed::<Cchar>(None) } pfx_byte { prefixed::<Cbyte>(None) } pfx_true { prefixed::<Ctrue>(None) } pfx_false { prefixed::<Cfalse>(None) }
    pfx_u8 { prefixed::<Cu8>(None) } pfx_zero { prefixed::<Czero>(None) } pfx_empty { prefixed::<Cempty>(None) } pfx_long { prefixed::<Clong>(None) } pfx_variant { prefixed::<InVariant>(Some(1)) } pfx_tuple { prefixed::<InTuple>(None) } pfx_c { prefixed::<InC>(None) }
    skip_struct { let e = endian(); let (a, b) = (any_u8(), any_u16()); let mut o = Out::new(is_be(e)); o.u8(a); o.u16(b); skipped(e, SkipA { x: Own(any_u32()), a, y: vec![Own(1); choose(3)], b, z: Own(3) }, o, |v| v.x == Own(0xABCD) && v.y.is_empty() && v.z == Own(0xABCD) && v.a == a && v.b == b) }
    skip_tuple { let e = endian(); let (a, b) = (any_u8(), any_u16()); let mut o = Out::new(is_be(e)); o.u8(a); o.u16(b); skipped(e, SkipT(Own(any_u32()), a, Some(Own(4)), b), o, |v| v.0 == Own(0xABCD) && v.2.is_none() && v.1 == a && v.3 == b) }
    skip_only { let e = endian(); skipped(e, SkipOnly { x: Own(any_u32()) }, Out::new(is_be(e)), |v| v.x == Own(0xABCD)) }
    skip_enum_a { let e = endian(); let (a, b) = (any_u8(), any_u16()); let mut o = Out::new(is_be(e)); o.u8(0); o.u8(a); o.u16(b); skipped(e, SkipE::A(a, Own(any_u32()), b), o, |v| matches!(v, SkipE::A(x, y, z) if *x == a && *y == Own(0xABCD) && *z == b)) }
    skip_enum_b { let e = endian(); let mut o = Out::new(is_be(e)); o.u8(1); skipped(e, SkipE::B { x: Own(any_u32()) }, o, |v| matches!(v, SkipE::B { x } if *x == Own(0xABCD))) }
    skip_c { let e = endian(); let (a, b) = (any_u8(), any_u16()); let mut o = Out::new(is_be(e)); o.u8(a); o.u16(b); skipped(e, SkipC { a, b: any_u8(), c: b }, o, |v| v.a == a && v.b == 0 && v.c == b) }
    skip_vec { let e = endian(); let d = bytes::<3>(); let mut o = Out::new(is_be(e)); o.u8(2); for i in 0..2 { o.u8(d[i]); o.u16(d[i + 1] as u16) } o.u8(7); let v = (0..2).map(|i| SkipC { a: d[i], b: any_u8(), c: d[i + 1] as u16 }).collect(); skipped(e, SkipVec { v, t: 7 }, o, |v| v.t == 7 && v.v.len() == 2 && (0..2).all(|i| v.v[i].a == d[i] && v.v[i].b == 0 && v.v[i].c == d[i + 1] as u16)) }
}
fn least() -> usize { <PeekVar as Readable<'_, Endianness>>::minimum_bytes_needed() }
