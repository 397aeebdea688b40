//! P22: user-defined contexts.
use crate::fam::Fam;
use crate::props::endian;
use crate::src::*;
use crate::sx::*;
use crate::val::*;
use speedy::{Endianness, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::ops::{Range, RangeInclusive};

use crate::ctx::*;

/// A byte that counts in the context; some values fail.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Step { v: u8, at: usize }
const FAIL: u8 = 0xEE;
const NOSIZE: u8 = 0xED;
impl<'a> Readable<'a, Cx> for Step {
    fn read_from<R: Reader<'a, Cx>>(r: &mut R) -> Result<Self, Bad> {
        let v = r.read_u8()?;
        let at = r.context().n;
        r.context_mut().n += 1;
        if v == FAIL { return Err(Bad::User(at as u8)) }
        Ok(Step { v, at })
    }
    fn minimum_bytes_needed() -> usize { 1 }
}
impl Writable<Cx> for Step {
    fn write_to<W: ?Sized + Writer<Cx>>(&self, w: &mut W) -> Result<(), Bad> {
        let at = w.context().n;
        w.context_mut().n += 1;
        if self.v == FAIL { return Err(Bad::User(at as u8)) }
        w.write_u8(self.v)
    }
    fn bytes_needed(&self) -> Result<usize, Bad> { if self.v == NOSIZE { Err(Bad::User(NOSIZE)) } else { Ok(1) } }
}
impl Val for Step {
    fn gen() -> Self { Step { v: any_u8(), at: 0 } }
    fn enc(&self, o: &mut Out) { o.u8(self.v) }
}
/// the steps of a value in the order of the encoding
trait Steps { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>); }
impl Steps for Step { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { o.push(self) } }
macro_rules! no_steps { ($($t:ty)*) => { $(impl Steps for $t { fn steps<'x>(&'x self, _: &mut Vec<&'x Step>) {} })* } }
no_steps! { u8 u16 String }
impl<T: Steps> Steps for Vec<T> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { for i in self { i.steps(o) } } }
impl<T: Steps> Steps for Box<[T]> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { for i in self.iter() { i.steps(o) } } }
impl<'a, T: Steps + Clone> Steps for Cow<'a, [T]> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { for i in self.iter() { i.steps(o) } } }
impl<T: Steps> Steps for Option<T> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { for i in self.iter() { i.steps(o) } } }
impl<T: Steps> Steps for Box<T> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { (**self).steps(o) } }
impl<T: Steps, const N: usize> Steps for [T; N] { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { for i in self { i.steps(o) } } }
impl<T: Steps, E: Steps> Steps for Result<T, E> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { match self { Ok(x) => x.steps(o), Err(x) => x.steps(o) } } }
impl<T: Steps> Steps for Range<T> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { self.start.steps(o); self.end.steps(o) } }
impl<T: Steps> Steps for RangeInclusive<T> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { self.start().steps(o); self.end().steps(o) } }
impl<K: Steps, T: Steps> Steps for BTreeMap<K, T> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { for i in self { i.0.steps(o); i.1.steps(o) } } }
impl<A: Steps, B: Steps> Steps for (A, B) { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { self.0.steps(o); self.1.steps(o) } }
impl<A: Steps, B: Steps, C: Steps, D: Steps> Steps for (A, B, C, D) { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { self.0.steps(o); self.1.steps(o); self.2.steps(o); self.3.steps(o) } }

macro_rules! derived { ($($st:ident { $($(#[$m:meta])* $f:ident: [$($t:tt)*] = $gen:expr, |$x:ident, $o:ident| $enc:expr;)* })*) => { $(
    #[derive(Readable, Writable)] pub struct $st<S> { $($(#[$m])* $f: $($t)*),* }
    impl<S: Val> Val for $st<S> {
        fn gen() -> Self { $(let $f: $($t)* = $gen;)* $st { $($f),* } }
        fn enc(&self, o: &mut Out) { $({ let $x = &self.$f; let $o = &mut *o; $enc; })* }
    }
    impl<S: Steps> Steps for $st<S> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { $(self.$f.steps(o);)* } }
)* } }
derived! {
    DPlain { a: [S] = Val::gen(), |x, o| x.enc(o); b: [u16] = Val::gen(), |x, o| x.enc(o); c: [Vec<S>] = Val::gen(), |x, o| x.enc(o); d: [S] = Val::gen(), |x, o| x.enc(o); }
    DLen { #[speedy(length_type = u8)] a: [Vec<S>] = Val::gen(), |x, o| { o.u8(x.len() as u8); enc_items(x, o) }; b: [S] = Val::gen(), |x, o| x.enc(o); }
    DExpr { n: [u8] = choose(3) as u8, |x, o| x.enc(o); #[speedy(length = n)] a: [Vec<S>] = (0..n).map(|_| Val::gen()).collect(), |x, o| enc_items(x, o); b: [S] = Val::gen(), |x, o| x.enc(o); }
    DEof { a: [S] = Val::gen(), |x, o| x.enc(o); #[speedy(length = ..)] b: [Vec<S>] = Val::gen(), |x, o| enc_items(x, o); }
    DPfx { #[speedy(constant_prefix = "P")] a: [S] = Val::gen(), |x, o| { o.u8(b'P'); x.enc(o) }; #[speedy(constant_prefix = 9_u8)] b: [Option<S>] = Val::gen(), |x, o| { o.u8(9); x.enc(o) }; }
    DNest { a: [Option<DPlain<S>>] = Some(Val::gen()), |x, o| x.enc(o); b: [S] = Val::gen(), |x, o| x.enc(o); }
    DStr { a: [String] = "é".to_string(), |x, o| x.enc(o); b: [(S, u16)] = Val::gen(), |x, o| x.enc(o); }
}
#[derive(Readable, Writable)] #[speedy(tag_type = u8)] pub enum DEnum<S> { A(S, u16), B { x: S, #[speedy(length_type = u16)] y: Vec<S> }, C }
impl<S: Val> Val for DEnum<S> {
    fn gen() -> Self { match choose(3) { 0 => DEnum::A(Val::gen(), Val::gen()), 1 => DEnum::B { x: Val::gen(), y: Val::gen() }, _ => DEnum::C } }
    fn enc(&self, o: &mut Out) { match self { DEnum::A(a, b) => { o.u8(0); a.enc(o); b.enc(o) } DEnum::B { x, y } => { o.u8(1); x.enc(o); o.u16(y.len() as u16); enc_items(y, o) } DEnum::C => o.u8(2) } }
}
impl<S: Steps> Steps for DEnum<S> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { match self { DEnum::A(a, _) => a.steps(o), DEnum::B { x, y } => { x.steps(o); y.steps(o) } _ => () } } }
#[derive(Readable, Writable)] #[speedy(tag_type = u8)] #[speedy(peek_tag)] pub enum DPeek<S> { #[speedy(tag = 1)] A { t: u8, s: S }, #[speedy(tag = 2)] B { t: u8, s: S, u: S } }
impl<S: Val> Val for DPeek<S> {
    fn gen() -> Self { if choose(2) == 0 { DPeek::A { t: 1, s: Val::gen() } } else { DPeek::B { t: 2, s: Val::gen(), u: Val::gen() } } }
    fn enc(&self, o: &mut Out) { match self { DPeek::A { t, s } => { t.enc(o); s.enc(o) } DPeek::B { t, s, u } => { t.enc(o); s.enc(o); u.enc(o) } } }
}
impl<S: Steps> Steps for DPeek<S> { fn steps<'x>(&'x self, o: &mut Vec<&'x Step>) { match self { DPeek::A { s, .. } => s.steps(o), DPeek::B { s, u, .. } => { s.steps(o); u.steps(o) } } } }

/// Reads with a context that the caller can look at afterwards, where there is one.
fn read_state<'a, T: Readable<'a, Cx>>(k: usize, e: Endianness, b: &'a [u8]) -> (Result<T, Bad>, Option<usize>) {
    match k {
        1 => { let mut c = Cx::new(e); let (r, _) = T::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, b); (r, Some(c.n)) }
        6 => { let mut r = PlainReader { ctx: Cx::new(e), b, pos: 0 }; let v = T::read_from(&mut r); (v, Some(r.ctx.n)) }
        _ => (read::<_, T>(k, Cx::new(e), b).0, None),
    }
}
/// State: every step sees the context as the previous one left it, in the order of the encoding.
fn state_read<T: Val + Steps + Readable<'static, Cx>>() {
    expect("whole");
    expect("fail");
    let e = endian();
    let v = T::gen();
    let b: &'static [u8] = encode(&v, e == Endianness::BigEndian).leak();
    let mut want = vec![];
    v.steps(&mut want);
    let s = choose(SOURCES);
    let bad = want.iter().position(|x| x.v == FAIL);
    let (r, n) = read_state::<T>(s, e, b);
    match (r, bad) {
        (Ok(x), None) => {
            cover("whole");
            let mut got = vec![];
            x.steps(&mut got);
            check(got.len() == want.len(), "the wrong number of elements");
            let mut i = 0;
            for (g, w) in got.iter().zip(&want) {
                check(g.v == w.v, "an element has the wrong value");
                check(g.at == i, "an element saw the wrong state of the context");
                i += 1;
            }
            if let Some(n) = n { check(n == want.len(), "the context left behind is not the one that was used") }
        }
        (Err(Bad::User(k)), Some(p)) => {
            cover("fail");
            check(k as usize == p, "the error of another element is reported");
            if let Some(n) = n { check(n == p + 1, "the context left behind is not the one that was used") }
        }
        (Ok(_), Some(_)) => check(false, "a user's error is swallowed"),
        (Err(_), _) => check(false, "a user's error is replaced by another one, or a valid value is rejected"),
    }
}
/// `direct`: without predicting the size, which is not possible for derived types whose parts look at the context.
fn state_write<T: Val + Steps + Writable<Cx>>(direct: bool) {
    expect("whole");
    expect("fail");
    if !direct { expect("size") }
    let e = endian();
    let v = T::gen();
    let b = encode(&v, e == Endianness::BigEndian);
    let mut want = vec![];
    v.steps(&mut want);
    let bad = want.iter().position(|x| x.v == FAIL);
    let unsized_ = want.iter().any(|x| x.v == NOSIZE);
    let k = if direct { 2 + choose(2) } else { choose(SINKS + 2) };
    let mut n = None;
    let r = match k {
        0..=2 => write(k, Cx::new(e), &v),
        3 => { let mut w = PlainWriter { ctx: Cx::new(e), b: vec![] }; let r = v.write_to(&mut w); n = Some(w.ctx.n); r.map(|_| w.b) }
        4 => { let mut c = Cx::new(e); let r = v.write_to_vec_with_ctx_mut(&mut c); n = Some(c.n); r }
        _ => { let mut c = Cx::new(e); let mut o = vec![0u8; b.len()]; let r = v.write_to_buffer_with_ctx_mut(&mut c, &mut o); n = Some(c.n); r.map(|_| o) }
    };
    if unsized_ && k != 3 && k != 2 {
        cover("size");
        check(matches!(r, Err(Bad::User(NOSIZE))), "the error of predicting the size is swallowed or replaced");
        if let Some(n) = n { check(n == 0, "something is written although the size is unknown") }
        return;
    }
    match (r, bad) {
        (Ok(x), None) => { cover("whole"); check(eq(&x, &b), "the bytes written are wrong"); if let Some(n) = n { check(n == want.len(), "the context left behind is not the one that was used") } }
        (Err(Bad::User(i)), Some(p)) => { cover("fail"); check(i as usize == p, "the error of another element is reported"); if let Some(n) = n { check(n == p + 1, "the context left behind is not the one that was used") } }
        (Ok(_), Some(_)) => check(false, "a user's error is swallowed"),
        (Err(_), _) => check(false, "a user's error is replaced by another one, or a value cannot be written"),
    }
}

/// Takes no bytes and turns the byte order around, for all that follows.
#[derive(Clone, PartialEq)]
pub struct Flip;
impl<'a> Readable<'a, Cx> for Flip {
    fn read_from<R: Reader<'a, Cx>>(r: &mut R) -> Result<Self, Bad> { let c = r.context_mut(); c.e = other(c.e); Ok(Flip) }
}
impl Writable<Cx> for Flip {
    fn write_to<W: ?Sized + Writer<Cx>>(&self, w: &mut W) -> Result<(), Bad> { let c = w.context_mut(); c.e = other(c.e); Ok(()) }
    fn bytes_needed(&self) -> Result<usize, Bad> { Ok(0) }
}
fn other(e: Endianness) -> Endianness { if e == Endianness::LittleEndian { Endianness::BigEndian } else { Endianness::LittleEndian } }
impl Val for Flip { fn gen() -> Self { Flip } fn enc(&self, o: &mut Out) { if !o.canon { o.be = !o.be } } }
macro_rules! flips { ($([$($g:tt)*] $n:ty, $st:item, { $($f:ident),* };)*) => { $(
    #[derive(Readable, Writable)] $st
    impl<$($g)*> Val for $n {
        fn gen() -> Self { Self { $($f: Val::gen()),* } }
        fn enc(&self, o: &mut Out) { $(self.$f.enc(o);)* }
    }
)* } }
flips! {
    [F: Val] FPlain<F>, pub struct FPlain<F> { a: u16, f: F, b: u16, c: u32 }, { a, f, b, c };
    [F: Val] FVec<F>, pub struct FVec<F> { a: Vec<u16>, f: F, b: Vec<u16>, g: F, c: [u32; 2] }, { a, f, b, g, c };
    ['a, F: Val] FCow<'a, F>, pub struct FCow<'a, F> { f: F, a: Cow<'a, [u16]>, g: F, b: Cow<'a, [u16]>, c: Option<u16> }, { f, a, g, b, c };
    [F: Val] FMap<F>, pub struct FMap<F> { f: F, a: BTreeMap<u16, u8>, g: F, b: (u8, u16), h: F, c: Result<u16, u8> }, { f, a, g, b, h, c };
    [F: Val] FPrim<F>, pub struct FPrim<F> { f: F, a: Vec<crate::dt::PPrim>, g: F, b: [crate::dt::PPacked; 2], h: F, c: f64 }, { f, a, g, b, h, c };
    [F: Val] FEach<F>, pub struct FEach<F> { a: Vec<(u16, F)>, b: [(F, u16); 3] }, { a, b };
    [F: Val] FMisc<F>, pub struct FMisc<F> { f: F, a: std::net::Ipv4Addr, g: F, b: char, h: F, c: String, i: F, d: std::time::Duration, e: bool }, { f, a, g, b, h, c, i, d, e };
}
fn flip<T: Val + Readable<'static, Cx> + Writable<Cx>>() {
    expect("done");
    let e = endian();
    let v = T::gen();
    let b: &'static [u8] = encode(&v, e == Endianness::BigEndian).leak();
    let want = canon(&v);
    for k in 2..SINKS {
        match write(k, Cx::new(e), &v) {
            Ok(x) => check(eq(&x, &b), "the byte order of the context does not govern what is written"),
            Err(_) => check(false, "a value cannot be written"),
        }
    }
    for k in 0..SOURCES {
        match read::<_, T>(k, Cx::new(e), b).0 {
            Ok(x) => check(eq(&canon(&x), &want), "the byte order of the context does not govern what is read"),
            Err(_) => check(false, "an encoding is rejected"),
        }
    }
    observe_bytes(&b);
    cover("done");
}
/// every sink: the parts predict their sizes themselves
fn flip_any<T: Val + Readable<'static, Cx> + Writable<Cx>>() {
    let e = endian();
    let v = T::gen();
    let b = encode(&v, e == Endianness::BigEndian);
    for k in 0..2 {
        match write(k, Cx::new(e), &v) {
            Ok(x) => check(eq(&x, &b), "the byte order of the context does not govern what is written"),
            Err(_) => check(false, "a value cannot be written"),
        }
    }
    flip::<T>()
}
/// an end of input reported by the user's own error type counts as one
struct Ends(u8);
impl<'a> Readable<'a, Cx> for Ends {
    fn read_from<R: Reader<'a, Cx>>(r: &mut R) -> Result<Self, Bad> {
        let v = r.read_u8()?;
        if v == 0 { Err(Bad::End) } else if v == FAIL { Err(Bad::User(v)) } else { Ok(Ends(v)) }
    }
}
impl Default for Ends { fn default() -> Self { Ends(77) } }
#[derive(Readable)] struct OnEof<T: Default> { a: u8, #[speedy(default_on_eof)] b: T }
#[derive(Readable)] struct ToEof<T> { a: u8, #[speedy(length = ..)] b: Vec<T> }
fn ends() {
    expect("value");
    expect("default");
    expect("error");
    let b = byte_vec(1 + choose(2));
    let k = choose(SOURCES);
    let r = read::<_, OnEof<Ends>>(k, Cx::new(endian()), &b).0;
    match r {
        Ok(x) => {
            check(x.a == b[0], "the field in front is wrong");
            if b.len() > 1 && b[1] != 0 { cover("value"); check(x.b.0 == b[1] && b[1] != FAIL, "the field is wrong") } else { cover("default"); check(x.b.0 == 77, "the default is not used at the end of input") }
        }
        Err(Bad::User(x)) => { cover("error"); check(b.len() > 1 && b[1] == x, "the wrong error") }
        Err(_) => check(false, "a user's error is replaced, or the end of input is not recognised"),
    }
}
fn ends_vec() {
    expect("value");
    expect("error");
    let b = byte_vec(1 + choose(4));
    let k = choose(SOURCES);
    let stop = b[1..].iter().position(|x| *x == 0 || *x == FAIL);
    match read::<_, ToEof<Ends>>(k, Cx::new(endian()), &b).0 {
        Ok(x) => {
            cover("value");
            check(x.a == b[0], "the field in front is wrong");
            check(stop.map_or(true, |s| b[1 + s] == 0), "a user's error is swallowed");
            let n = stop.unwrap_or(b.len() - 1);
            check(x.b.len() == n, "the wrong number of elements");
            for (i, y) in x.b.iter().enumerate() { check(y.0 == b[1 + i], "an element is wrong") }
        }
        Err(Bad::User(_)) => { cover("error"); check(stop.map_or(false, |s| b[1 + s] == FAIL), "an error out of nowhere") }
        Err(_) => check(false, "a user's error is replaced, or the end of input is not recognised"),
    }
}

fn kind(e: &speedy::Error) -> u8 {
    use speedy::private::ErrorKind::*;
    match speedy::private::get_error_kind(e) {
        InvalidChar => 0, InvalidEnumVariant => 1, InvalidUtf8 => 2, InvalidSystemTime => 3, ZeroNonZero => 4, OutOfRangeLength => 5, OutOfRangeUsize => 6,
        UnexpectedEndOfInput => 7, UnexpectedEndOfOutputBuffer => 8, InputBufferIsTooSmall { .. } => 9, OutputBufferIsTooSmall { .. } => 10,
        LengthIsNotTheSameAsLengthAttribute { .. } => 11, ExpectedConstant { .. } => 12, Unsized => 13, EndiannessMismatch => 14, UnalignedInput => 15, IoError(_) => 16,
    }
}
/// A user-defined context makes no difference to what is read and written, and receives the same errors.
pub fn contexts<F: Fam>() {
    expect("done");
    let e = endian();
    let b = byte_vec(choose(F::N + 1));
    contexts_on::<F>(e, &b)
}
pub fn contexts_on<F: Fam>(e: Endianness, b: &[u8]) {
    let k = choose(3);
    let (want, n) = read::<_, F::T<'_>>(k, e, b);
    let (got, m) = read::<_, F::T<'_>>(k, Cx::new(e), b);
    match (want, got) {
        (Ok(x), Ok(y)) => {
            let c = canon(&x);
            observe_bytes(&c);
            check(eq(&c, &canon(&y)), "another value is read with a user's context");
            check(n == m, "another length is consumed with a user's context");
        }
        (Err(x), Err(Bad::Lib(y))) => {
            observe(99); // the kind may depend on how much memory there is (a huge length read from a stream)
            check(kind(&x) == kind(&y), "another error is reported with a user's context");
        }
        (Err(_), Err(_)) => check(false, "a user's error out of nowhere"),
        _ => check(false, "accepted with one context and rejected with another"),
    }
    cover("done");
}
macro_rules! states { ($($r:ident $w:ident $t:ty;)*) => { crate::entries! {
    $( $r { state_read::<$t>() } $w { state_write::<$t>(stringify!($t).starts_with('D')) } )*
    flip_plain { flip::<FPlain<Flip>>() }
    flip_vec { flip::<FVec<Flip>>() }
    flip_cow { flip::<FCow<'static, Flip>>() }
    flip_map { flip::<FMap<Flip>>() }
    flip_prim { flip::<FPrim<Flip>>() }
    flip_each { flip::<FEach<Flip>>() }
    flip_misc { flip::<FMisc<Flip>>() }
    /// a part that looks at the context while the size of a derived type is being predicted
    context_while_sizing {
        let v: DStr<Step> = Val::gen();
        assume(v.b.0.v < 2);
        let b = encode(&v, false);
        match v.write_to_vec_with_ctx(Cx::new(Endianness::LittleEndian)) { Ok(x) => check(eq(&x, &b), "the bytes written are wrong"), Err(_) => check(false, "a value cannot be written") }
    }
    flip_tuple { flip_any::<(u16, Flip, u16, Vec<(Flip, u32)>, Option<f32>)>() }
    flip_map_tuple { flip_any::<BTreeMap<u8, (u16, Flip, u16)>>() }
    user_end { ends() }
    user_end_vec { ends_vec() }
} } }
states! {
    read_step write_step Step; read_vec write_vec Vec<Step>; read_array write_array [Step; 3]; read_opt write_opt Option<Step>; read_box write_box Box<Step>;
    read_slice write_slice Box<[Step]>; read_cow write_cow Cow<'static, [Step]>; read_result write_result Result<Step, Vec<Step>>; read_range write_range Range<Step>; read_range_inc write_range_inc RangeInclusive<Step>;
    read_tuple write_tuple (Step, u16, Option<Step>, [Step; 1]); read_map write_map BTreeMap<u8, Step>; read_nested write_nested Vec<Option<(Step, u16)>>;
    read_struct write_struct DPlain<Step>; read_len write_len DLen<Step>; read_expr write_expr DExpr<Step>; read_eof write_eof DEof<Step>; read_prefix write_prefix DPfx<Step>; read_nest write_nest DNest<Step>; read_str write_str DStr<Step>;
    read_enum write_enum DEnum<Step>; read_peek write_peek DPeek<Step>;
}
