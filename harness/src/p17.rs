//! P17: fields that default at the end of input, and fields that read to the end of input.
//! The oracle is a decoder of its own, which knows how many bytes each field takes.
use crate::props::{endian, is_be};
use crate::src::*;
use crate::sx::*;
use speedy::{Endianness, IsEof, Readable};
use std::borrow::Cow;
use std::collections::*;

#[derive(PartialEq, Clone, Copy)]
pub enum Fail { Eof, Bad }
type R<T> = Result<T, Fail>;
/// The decoder's state.
pub struct P<'b> {
    b: &'b [u8],
    pos: usize,
    be: bool,
    /// nesting depth of records, and the number of the outermost record's current field
    depth: usize,
    field: usize,
    /// the input ended in the middle of a field: only so many fields of the outermost record are specified
    cut: Option<usize>,
    /// the input ended in the middle of an element: how much was consumed is not specified
    partial: bool,
    early: bool,
}
impl<'b> P<'b> {
    fn take(&mut self, n: usize) -> R<&'b [u8]> {
        if n > self.b.len() - self.pos { return Err(Fail::Eof) }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    fn num(&mut self, w: usize) -> R<u64> {
        let be = self.be;
        let b = self.take(w)?;
        let mut v = 0u64;
        for i in 0..w { v |= (b[i] as u64) << (8 * if be { w - 1 - i } else { i } as u32) }
        Ok(v)
    }
    /// a field with default_on_eof
    fn def<T: Default>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let at = self.pos;
        match f(self) {
            Err(Fail::Eof) => {
                if at != self.b.len() { self.cut = self.cut.or(Some(self.field + (self.depth < 2) as usize)); self.partial = true }
                self.pos = self.b.len();
                Ok(T::default())
            }
            r => r,
        }
    }
    fn many<T: Dec>(&mut self, n: usize) -> R<Vec<T>> {
        // the length alone tells that the input ends too early: that may be found out before or after the elements are looked at
        if n > self.b.len() - self.pos { self.early = true }
        let mut v = vec![];
        for _ in 0..n { v.push(T::dec(self)?) }
        Ok(v)
    }
    /// everything up to the end
    fn rest<T: Dec>(&mut self) -> R<Vec<T>> {
        let mut v = vec![];
        loop {
            let at = self.pos;
            match T::dec(self) {
                Ok(x) => v.push(x),
                Err(Fail::Eof) => { if at != self.b.len() { self.partial = true } return Ok(v) }
                Err(x) => return Err(x),
            }
        }
    }
    fn flag<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<Option<T>> { Ok(if self.num(1)? != 0 { Some(f(self)?) } else { None }) }
    fn prefix(&mut self, s: &[u8]) -> R<()> { if self.take(s.len())? == s { Ok(()) } else { Err(Fail::Bad) } }
    /// the documented variable-length integer
    fn varint(&mut self) -> R<u64> {
        let first = self.num(1)?;
        let n = (first as u8).leading_ones() as usize;
        let b = self.take(n)?;
        let mut v = 0u64;
        for i in 0..n { v |= (b[i] as u64) << (8 * i as u32) }
        if n < 7 { v |= (first & (0x7F >> n as u32)) << (8 * n as u32) }
        Ok(v)
    }
}
pub trait Dec: Sized { fn dec(p: &mut P) -> R<Self>; }
macro_rules! nums { ($($t:ident $w:literal;)*) => { $(impl Dec for $t { fn dec(p: &mut P) -> R<Self> { Ok(p.num($w)? as $t) } })* } }
nums! { u8 1; u16 2; u32 4; i16 2; u64 8; }
fn text(b: Vec<u8>) -> R<String> { String::from_utf8(b).map_err(|_| Fail::Bad) }
impl<T: Dec> Dec for Vec<T> { fn dec(p: &mut P) -> R<Self> { let n = p.num(4)? as usize; p.many(n) } }
impl Dec for String { fn dec(p: &mut P) -> R<Self> { text(Vec::dec(p)?) } }
impl<T: Dec> Dec for Option<T> { fn dec(p: &mut P) -> R<Self> { p.flag(T::dec) } }
impl<A: Dec, B: Dec> Dec for (A, B) { fn dec(p: &mut P) -> R<Self> { Ok((A::dec(p)?, B::dec(p)?)) } }
impl<T: Dec> Dec for [T; 2] { fn dec(p: &mut P) -> R<Self> { Ok([T::dec(p)?, T::dec(p)?]) } }
/// Has an invalid encoding, and a default that is not zero.
#[derive(Readable, PartialEq, Clone, Copy, Debug)]
#[speedy(tag_type = u8)]
pub enum En { #[speedy(tag = 1)] A, #[speedy(tag = 2)] B(u8) }
impl Default for En { fn default() -> En { En::B(0x77) } }
impl Dec for En { fn dec(p: &mut P) -> R<Self> { match p.num(1)? { 1 => Ok(En::A), 2 => Ok(En::B(u8::dec(p)?)), _ => Err(Fail::Bad) } } }

pub trait Same { fn same(&self, o: &Self, fields: usize) -> bool; }
macro_rules! recs { ($([$($g:tt)*] $n:ident [$($u:tt)*] { $($(#[$a:meta])* $f:ident : [$($t:tt)*] = $d:expr;)* })*) => { $(
    #[derive(Readable, PartialEq)]
    pub struct $n<$($g)*> { $($(#[$a])* $f: $($t)*,)* }
    impl<$($g)*> Dec for $n<$($u)*> {
        fn dec(p: &mut P) -> R<Self> {
            p.depth += 1;
            $(
                let d: fn(&mut P) -> R<$($t)*> = $d;
                let $f = d(p)?;
                if p.depth == 1 { p.field += 1 }
            )*
            p.depth -= 1;
            Ok($n { $($f,)* })
        }
    }
    impl<$($g)*> Same for $n<$($u)*> {
        fn same(&self, o: &Self, fields: usize) -> bool {
            let mut k = 0;
            $(if k == fields { return true } k += 1; if self.$f != o.$f { return false })*
            let _ = k;
            true
        }
    }
)* } }
fn refs(x: Vec<u8>) -> &'static [u8] { x.leak() }
fn to_str(x: Vec<u8>) -> R<&'static str> { std::str::from_utf8(x.leak()).map_err(|_| Fail::Bad) }
recs! {
    [] Dnum [] { a: [u8] = u8::dec; #[speedy(default_on_eof)] b: [u16] = |p| p.def(u16::dec); #[speedy(default_on_eof)] c: [u32] = |p| p.def(u32::dec); }
    [] Dlast [] { a: [u16] = u16::dec; #[speedy(default_on_eof)] c: [u64] = |p| p.def(u64::dec); }
    [] Dall [] { #[speedy(default_on_eof)] a: [u8] = |p| p.def(u8::dec); #[speedy(default_on_eof)] b: [i16] = |p| p.def(i16::dec); }
    [] Dmiddle [] { #[speedy(default_on_eof)] a: [u8] = |p| p.def(u8::dec); b: [u8] = u8::dec; }
    [] Dvec [] { a: [u8] = u8::dec; #[speedy(default_on_eof)] v: [Vec<u16>] = |p| p.def(Dec::dec); }
    [] Dvec_en [] { #[speedy(default_on_eof)] v: [Vec<En>] = |p| p.def(Dec::dec); #[speedy(default_on_eof)] e: [En] = |p| p.def(Dec::dec); }
    [] Dstr [] { a: [u8] = u8::dec; #[speedy(default_on_eof)] s: [String] = |p| p.def(Dec::dec); }
    [] Dopt [] { #[speedy(default_on_eof)] o: [Option<u16>] = |p| p.def(Dec::dec); #[speedy(default_on_eof)] e: [Option<En>] = |p| p.def(Dec::dec); }
    [] Doptvec [] { #[speedy(default_on_eof)] o: [Option<Vec<u8>>] = |p| p.def(Dec::dec); }
    [] Doptstr [] { a: [u8] = u8::dec; #[speedy(default_on_eof)] o: [Option<String>] = |p| p.def(Dec::dec); }
    [] Doptlen [] { #[speedy(default_on_eof, length_type = u8)] o: [Option<Vec<u16>>] = |p| p.def(|p| p.flag(|p| { let n = p.num(1)? as usize; p.many(n) })); }
    [] Den [] { a: [u8] = u8::dec; #[speedy(default_on_eof)] e: [En] = |p| p.def(Dec::dec); }
    [] Dpair [] { #[speedy(default_on_eof)] e: [(u8, En)] = |p| p.def(Dec::dec); }
    [] Darr [] { #[speedy(default_on_eof)] e: [[u16; 2]] = |p| p.def(Dec::dec); }
    [] Dlen8 [] { a: [u8] = u8::dec; #[speedy(default_on_eof, length_type = u8)] v: [Vec<u16>] = |p| p.def(|p| { let n = p.num(1)? as usize; p.many(n) }); #[speedy(default_on_eof, length_type = u16)] s: [String] = |p| p.def(|p| { let n = p.num(2)? as usize; text(p.many(n)?) }); }
    [] Dlenv [] { #[speedy(default_on_eof, length_type = u64_varint)] v: [Vec<u8>] = |p| p.def(|p| { let n = p.varint()? as usize; p.many(n) }); }
    [] Dlen_bset [] { #[speedy(default_on_eof, length_type = u7)] v: [BTreeSet<u8>] = |p| p.def(|p| { let n = p.num(1)? as usize; if n > 127 { return Err(Fail::Bad) } Ok(p.many(n)?.into_iter().collect()) }); }
    [] Dvar [] { a: [u8] = u8::dec; #[speedy(default_on_eof, varint)] v: [u64] = |p| p.def(|p| p.varint()); }
    [] Dpfx [] { a: [u8] = u8::dec; #[speedy(default_on_eof, constant_prefix = "XY")] b: [u8] = |p| p.def(|p| { p.prefix(b"XY")?; u8::dec(p) }); }
    [] Dpfx_vec [] { #[speedy(default_on_eof, constant_prefix = "X", length_type = u8)] b: [Vec<u8>] = |p| p.def(|p| { p.prefix(b"X")?; let n = p.num(1)? as usize; p.many(n) }); }
    [] Dmap [] { #[speedy(default_on_eof, length_type = u8)] b: [BTreeMap<u8, En>] = |p| p.def(|p| { let n = p.num(1)? as usize; Ok(p.many(n)?.into_iter().collect()) }); }
    [] Dhmap [] { #[speedy(default_on_eof, length_type = u8)] b: [HashMap<u8, u8>] = |p| p.def(|p| { let n = p.num(1)? as usize; Ok(p.many(n)?.into_iter().collect()) }); }
    [] Dnest [] { a: [u8] = u8::dec; d: [Dall] = Dall::dec; }
    [] Darr_nest [] { d: [[Dall; 2]] = Dec::dec; }
    ['a] Dcow ['a] { #[speedy(default_on_eof)] c: [Cow<'a, str>] = |p| p.def(|p| String::dec(p).map(Cow::Owned)); #[speedy(default_on_eof)] d: [Cow<'a, [u8]>] = |p| p.def(|p| Vec::dec(p).map(Cow::Owned)); }
    [] Dskip [] { a: [u8] = u8::dec; #[speedy(skip)] s: [En] = |_| Ok(En::default()); #[speedy(default_on_eof)] b: [u8] = |p| p.def(u8::dec); }
    [] Duntil [] { a: [u8] = u8::dec; #[speedy(default_on_eof)] b: [u16] = |p| p.def(u16::dec); #[speedy(length = ..)] v: [Vec<u8>] = |p| p.rest(); }
    // to the end of input
    [] Uu8 [] { a: [u16] = u16::dec; #[speedy(length = ..)] v: [Vec<u8>] = |p| p.rest(); }
    [] Uu16 [] { a: [u8] = u8::dec; #[speedy(length = ..)] v: [Vec<u16>] = |p| p.rest(); }
    [] Uu64 [] { #[speedy(length = ..)] v: [Vec<u64>] = |p| p.rest(); }
    [] Uen [] { #[speedy(length = ..)] v: [Vec<En>] = |p| p.rest(); }
    [] Upair [] { a: [u8] = u8::dec; #[speedy(length = ..)] v: [Vec<(u8, u16)>] = |p| p.rest(); }
    [] Uvec [] { #[speedy(length = ..)] v: [Vec<Vec<u8>>] = |p| p.rest(); }
    [] Uopt [] { #[speedy(length = ..)] v: [Vec<Option<u16>>] = |p| p.rest(); }
    [] Ustr [] { a: [u8] = u8::dec; #[speedy(length = ..)] v: [String] = |p| text(p.rest()?); }
    ['a] Ucow ['a] { a: [u8] = u8::dec; #[speedy(length = ..)] v: [Cow<'a, [u16]>] = |p| p.rest().map(Cow::Owned); }
    ['a] Ucow8 ['a] { a: [u8] = u8::dec; #[speedy(length = ..)] v: [Cow<'a, [u8]>] = |p| p.rest().map(Cow::Owned); }
    ['a] Ucowstr ['a] { a: [u8] = u8::dec; #[speedy(length = ..)] v: [Cow<'a, str>] = |p| text(p.rest()?).map(Cow::Owned); }
    [] Umap [] { a: [u8] = u8::dec; #[speedy(length = ..)] v: [BTreeMap<u8, u16>] = |p| Ok(p.rest()?.into_iter().collect()); }
    [] Umap_en [] { #[speedy(length = ..)] v: [BTreeMap<u8, En>] = |p| Ok(p.rest()?.into_iter().collect()); }
    [] Uset [] { a: [u8] = u8::dec; #[speedy(length = ..)] v: [BTreeSet<u16>] = |p| Ok(p.rest()?.into_iter().collect()); }
    [] Uhmap [] { #[speedy(length = ..)] v: [HashMap<u8, u8>] = |p| Ok(p.rest()?.into_iter().collect()); }
    [] Uhset [] { #[speedy(length = ..)] v: [HashSet<u8>] = |p| Ok(p.rest()?.into_iter().collect()); }
    ['a] Ucowset ['a] { #[speedy(length = ..)] v: [Cow<'a, BTreeSet<u8>>] = |p| Ok(Cow::Owned(p.rest()?.into_iter().collect())); }
    ['a] Ucowmap ['a] { #[speedy(length = ..)] v: [Cow<'a, BTreeMap<u8, u8>>] = |p| Ok(Cow::Owned(p.rest()?.into_iter().collect())); }
    [] Udef [] { a: [u8] = u8::dec; #[speedy(default_on_eof, length = ..)] v: [Vec<u16>] = |p| p.def(|p| p.rest()); }
    [] Upfx [] { #[speedy(length = .., constant_prefix = "X")] v: [Vec<u16>] = |p| { p.prefix(b"X")?; p.rest() }; }
    // only from a borrowed buffer
    ['a] Ref_def ['a] { a: [u8] = u8::dec; #[speedy(default_on_eof)] r: [&'a [u8]] = |p| p.def(|p| Vec::dec(p).map(refs)); }
    ['a] Str_def ['a] { a: [u8] = u8::dec; #[speedy(default_on_eof, length_type = u8)] r: [&'a str] = |p| p.def(|p| { let n = p.num(1)? as usize; to_str(p.many(n)?) }); }
    ['a] Ref_end ['a] { a: [u8] = u8::dec; #[speedy(length = ..)] r: [&'a [u8]] = |p| p.rest().map(refs); }
    ['a] Str_end ['a] { a: [u8] = u8::dec; #[speedy(length = ..)] r: [&'a str] = |p| to_str(p.rest()?); }
}
#[derive(Readable, PartialEq)] pub struct Tup(u8, #[speedy(default_on_eof)] En, #[speedy(default_on_eof)] u16);
impl Dec for Tup { fn dec(p: &mut P) -> R<Self> { let a = u8::dec(p)?; p.field = 1; let b = p.def(En::dec)?; p.field = 2; Ok(Tup(a, b, p.def(u16::dec)?)) } }
impl Same for Tup { fn same(&self, o: &Self, n: usize) -> bool { (n < 1 || self.0 == o.0) && (n < 2 || self.1 == o.1) && (n < 3 || self.2 == o.2) } }
#[derive(Readable, PartialEq)] #[speedy(tag_type = u8)] pub enum Var { A { #[speedy(default_on_eof)] x: u16 }, B(u8, #[speedy(length = ..)] Vec<u16>), C }
impl Dec for Var { fn dec(p: &mut P) -> R<Self> { Ok(match p.num(1)? { 0 => Var::A { x: p.def(u16::dec)? }, 1 => Var::B(u8::dec(p)?, p.rest()?), 2 => Var::C, _ => return Err(Fail::Bad) }) } }
impl Same for Var { fn same(&self, o: &Self, _: usize) -> bool { self == o } }

fn ends<T: Dec + Same + Readable<'static, Endianness>>(n: usize, sources: usize) {
    let e = endian();
    ends_in::<T>(e, byte_vec(choose(n + 1)).leak(), sources)
}
/// The same with bytes that are only ever 0, 1 or 2: the standard library's hash of anything else is too hard to solve for.
fn ends_small<T: Dec + Same + Readable<'static, Endianness>>(n: usize, sources: usize) {
    let e = endian();
    let b: Vec<u8> = (0..choose(n + 1)).map(|_| choose(3) as u8).collect();
    ends_in::<T>(e, b.leak(), sources)
}
fn ends_in<T: Dec + Same + Readable<'static, Endianness>>(e: Endianness, b: &'static [u8], sources: usize) {
    expect("read");
    let mut p = P { b, pos: 0, be: is_be(e), depth: 0, field: 0, cut: None, partial: false, early: false };
    let want = T::dec(&mut p);
    let k = choose(sources);
    let (r, used) = read::<_, T>(k, e, b);
    match (r, want) {
        (Ok(v), Ok(w)) => {
            cover("read");
            observe(1);
            check(v.same(&w, match p.cut { Some(n) => n, None => usize::MAX }), "the value is not what the input says");
            if p.partial { cover("partial") }
            if let Some(u) = used {
                observe(u as u64);
                check(p.partial || u == p.pos, "the number of bytes consumed is wrong");
            }
        }
        (Err(x), Err(f)) => {
            cover("rejected");
            observe(2);
            let eof = x.is_eof();
            // a whole buffer that is shorter than the minimum is an error of its own
            check(eof == (f == Fail::Eof) || eof && p.early || k < 2 && f == Fail::Eof && b.len() < T::minimum_bytes_needed(), "the kind of the error is wrong");
        }
        (Ok(_), Err(Fail::Bad)) => check(p.cut.is_some() || p.early, "an error is swallowed"),
        (Ok(_), Err(Fail::Eof)) => check(p.cut.is_some(), "a field is read beyond the end of input"),
        (Err(x), Ok(_)) => check(p.cut.is_some(), if x.is_eof() { "the end of input is reported as an error" } else { "the end of input is reported as another error" }),
    }
}
const X: usize = if cfg!(feature = "thorough") { 2 } else { 0 };
macro_rules! all { ($($n:ident $t:ident $len:expr, $s:expr;)*) => { crate::entries! {
    $($n { ends::<$t>($len + X, $s) })*
    dhmap { ends_small::<Dhmap>(5, SOURCES) } uhmap { ends_small::<Uhmap>(4, SOURCES) } uhset { ends_small::<Uhset>(3, SOURCES) }
} } }
all! {
    dnum Dnum 8, SOURCES; dlast Dlast 11, SOURCES; dall Dall 4, SOURCES; dmiddle Dmiddle 3, SOURCES; dvec Dvec 9, SOURCES; dvec_en Dvec_en 9, SOURCES; dstr Dstr 8, SOURCES; dopt Dopt 6, SOURCES;
    doptvec Doptvec 8, SOURCES; doptstr Doptstr 8, SOURCES; doptlen Doptlen 7, SOURCES; den Den 4, SOURCES; dpair Dpair 4, SOURCES; darr Darr 5, SOURCES; dlen8 Dlen8 8, SOURCES; dlenv Dlenv 10, SOURCES; dlen_bset Dlen_bset 5, SOURCES;
    dvar Dvar 11, SOURCES; dpfx Dpfx 5, SOURCES; dpfx_vec Dpfx_vec 5, SOURCES; dmap Dmap 7, SOURCES; dnest Dnest 5, SOURCES; darr_nest Darr_nest 7, SOURCES; dcow Dcow 9, SOURCES; dskip Dskip 3, SOURCES; duntil Duntil 6, SOURCES;
    uu8 Uu8 6, SOURCES; uu16 Uu16 7, SOURCES; uu64 Uu64 17, SOURCES; uen Uen 5, SOURCES; upair Upair 8, SOURCES; uvec Uvec 10, SOURCES; uopt Uopt 7, SOURCES; ustr Ustr 4, SOURCES; ucow Ucow 7, SOURCES; ucow8 Ucow8 5, SOURCES; ucowstr Ucowstr 4, SOURCES;
    umap Umap 8, SOURCES; umap_en Umap_en 7, SOURCES; uset Uset 7, SOURCES; ucowset Ucowset 4, SOURCES; ucowmap Ucowmap 5, SOURCES; udef Udef 5, SOURCES; upfx Upfx 6, SOURCES;
    ref_def Ref_def 8, 1; str_def Str_def 5, 1; ref_end Ref_end 5, 1; str_end Str_end 4, 1; tup Tup 6, SOURCES; var Var 7, SOURCES;
}
