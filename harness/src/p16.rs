//! P16: the accessors of readers and writers, and the functions without a context.
use crate::props::{endian, is_be};
use crate::src::*;
use crate::sx::*;
use crate::val::Out;
use speedy::{BigEndian, Context, Endianness, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::marker::PhantomData;

/// the value of `b` in the given byte order
fn number(b: &[u8], be: bool) -> u128 {
    let mut v = 0u128;
    let mut i = 0;
    while i < b.len() {
        let p = if be { b.len() - 1 - i } else { i };
        v |= (b[i] as u128) << (8 * p as u32);
        i += 1;
    }
    v
}
fn bytes_of(v: u128, w: usize, be: bool) -> Vec<u8> {
    let mut o = Out::new(be);
    o.int(&v.to_le_bytes()[..w]);
    o.b
}
pub trait Prim: Copy + for<'a> Readable<'a, Endianness> + Writable<Endianness> + for<'a> Readable<'a, Cx> + Writable<Cx> {
    const W: usize;
    fn bits(self) -> u128;
    fn make(x: u128) -> Self;
    fn read<'a, C: Context, R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error>;
    fn peek<'a, C: Context, R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error>;
    fn write<C: Context, W: ?Sized + Writer<C>>(self, w: &mut W) -> Result<(), C::Error>;
    fn swap(e: Endianness, x: &mut Self);
    fn swap_all(e: Endianness, x: &mut [Self]);
    fn from_slice(e: Endianness, b: &[u8]) -> Option<Self>;
}
macro_rules! prims { ($($t:ident $w:literal $r:ident $p:ident $wr:ident $bits:expr, $make:expr, $swap:expr, $swaps:ident, $from:expr;)*) => { $(
    impl Prim for $t {
        const W: usize = $w;
        fn bits(self) -> u128 { ($bits)(self) }
        fn make(x: u128) -> Self { ($make)(x) }
        fn read<'a, C: Context, R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { r.$r() }
        fn peek<'a, C: Context, R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { r.$p() }
        fn write<C: Context, W: ?Sized + Writer<C>>(self, w: &mut W) -> Result<(), C::Error> { w.$wr(self) }
        fn swap(e: Endianness, x: &mut Self) { ($swap)(e, x) }
        fn swap_all(e: Endianness, x: &mut [Self]) { e.$swaps(x) }
        fn from_slice(e: Endianness, b: &[u8]) -> Option<Self> { ($from)(e, b) }
    }
)* } }
macro_rules! int_prims { ($($t:ident $u:ident $w:literal $r:ident $p:ident $wr:ident $s:ident $ss:ident;)*) => { prims! { $(
    $t $w $r $p $wr |x: $t| x as $u as u128, |x: u128| x as $u as $t, |e: Endianness, x: &mut $t| e.$s(x), $ss, |e: Endianness, b: &[u8]| Some(e.$r(b));
)* } } }
int_prims! {
    u16 u16 2 read_u16 peek_u16 write_u16 swap_u16 swap_slice_u16; u32 u32 4 read_u32 peek_u32 write_u32 swap_u32 swap_slice_u32;
    u64 u64 8 read_u64 peek_u64 write_u64 swap_u64 swap_slice_u64; u128 u128 16 read_u128 peek_u128 write_u128 swap_u128 swap_slice_u128;
    i16 u16 2 read_i16 peek_i16 write_i16 swap_i16 swap_slice_i16; i32 u32 4 read_i32 peek_i32 write_i32 swap_i32 swap_slice_i32;
    i64 u64 8 read_i64 peek_i64 write_i64 swap_i64 swap_slice_i64; i128 u128 16 read_i128 peek_i128 write_i128 swap_i128 swap_slice_i128;
}
prims! {
    u8 1 read_u8 peek_u8 write_u8 |x: u8| x as u128, |x: u128| x as u8, |_, _: &mut u8| (), swap_slice_u8, |_, _: &[u8]| None;
    i8 1 read_i8 peek_i8 write_i8 |x: i8| x as u8 as u128, |x: u128| x as u8 as i8, |_, _: &mut i8| (), swap_slice_i8, |_, _: &[u8]| None;
    f32 4 read_f32 peek_f32 write_f32 |x: f32| x.to_bits() as u128, |x: u128| f32::from_bits(x as u32), |e: Endianness, x: &mut f32| e.swap_f32(x), swap_slice_f32, |e: Endianness, b: &[u8]| Some(e.read_f32(b));
    f64 8 read_f64 peek_f64 write_f64 |x: f64| x.to_bits() as u128, |x: u128| f64::from_bits(x as u64), |e: Endianness, x: &mut f64| e.swap_f64(x), swap_slice_f64, |e: Endianness, b: &[u8]| Some(e.read_f64(b));
}
/// byte order, bytes to read first
#[derive(Copy, Clone)]
pub struct Cx(Endianness, usize);
impl Context for Cx {
    type Error = speedy::Error;
    fn endianness(&self) -> Endianness { self.0 }
}
/// What is seen by: reading `lead` bytes, peeking twice, peeking a byte, reading, and then reading what is left.
struct Got<T> { peek: Result<u128, bool>, again: Result<u128, bool>, first: Option<u8>, read: Result<u128, bool>, tail: Vec<u8>, e: Endianness, t: PhantomData<T> }
impl<'a, T: Prim> Readable<'a, Cx> for Got<T> {
    fn read_from<R: Reader<'a, Cx>>(r: &mut R) -> Result<Self, speedy::Error> {
        let Cx(_, lead) = *r.context();
        for _ in 0..lead { r.read_u8()?; }
        let ok = |x: Result<T, speedy::Error>| match x { Ok(v) => Ok(v.bits()), Err(e) => Err(e.is_eof()) };
        let peek = ok(T::peek(r));
        let again = ok(T::peek(r));
        let first = r.peek_u8().ok();
        let read = if peek.is_ok() { ok(T::read(r)) } else { Err(true) };
        let e = r.endianness();
        let mut tail = vec![];
        while let Ok(x) = r.read_u8() { tail.push(x) }
        Ok(Got { peek, again, first, read, tail, e, t: PhantomData })
    }
}
/// Nothing but a read (no peek before it), which must fail at the end of input.
struct JustRead<T>(T);
impl<'a, T: Prim> Readable<'a, Cx> for JustRead<T> {
    fn read_from<R: Reader<'a, Cx>>(r: &mut R) -> Result<Self, speedy::Error> {
        let Cx(_, lead) = *r.context();
        for _ in 0..lead { r.read_u8()?; }
        Ok(JustRead(T::read(r)?))
    }
}
fn gets<T: Prim>(lead: usize) {
    expect("whole");
    expect("short");
    let e = endian();
    let b = byte_vec(lead + choose(T::W + 3));
    let s = choose(SOURCES);
    let rest = &b[lead..];
    match read::<_, Got<T>>(s, Cx(e, lead), &b).0 {
        Err(_) => check(false, "reading the bytes in front fails"),
        Ok(g) => {
            check(g.e == e, "the reader reports the wrong byte order");
            check(g.first == rest.get(0).copied(), "peeking a byte gives another byte");
            if rest.len() < T::W {
                cover("short");
                check(g.peek == Err(true) && g.again == Err(true), "a value is peeked beyond the end, or the end is not reported");
                check(eq(&g.tail, rest), "a failed peek takes or loses bytes");
            } else {
                cover("whole");
                let want = number(&rest[..T::W], is_be(e));
                observe(want as u64);
                observe((want >> 64) as u64);
                check(g.peek == Ok(want), "the value peeked is wrong");
                check(g.again == Ok(want), "the value peeked again is wrong");
                check(g.read == Ok(want), "the value read after peeking is wrong");
                check(eq(&g.tail, &rest[T::W..]), "the bytes after the value are not those that follow");
            }
        }
    }
    let (r, used) = read::<_, JustRead<T>>(s, Cx(e, lead), &b);
    match r {
        Ok(JustRead(v)) => {
            check(rest.len() >= T::W, "a value is read beyond the end");
            if rest.len() >= T::W { check(v.bits() == number(&rest[..T::W], is_be(e)), "the value read is wrong") }
            if let Some(u) = used { check(u == lead + T::W, "the length consumed is wrong") }
        }
        Err(x) => {
            check(rest.len() < T::W, "a value that is there is not read");
            check(x.is_eof(), "the end of input is not reported");
        }
    }
}
/// `write_x`, then a marker; by method, by value and as a slice
struct Put<T>(u8, T, T);
impl<T: Prim> Writable<Cx> for Put<T> {
    fn write_to<W: ?Sized + Writer<Cx>>(&self, w: &mut W) -> Result<(), speedy::Error> {
        match self.0 {
            0 => { T::write(self.1, w)?; T::write(self.2, w)? }
            1 => { w.write_value(&self.1)?; w.write_value(&self.2)? }
            2 => w.write_slice(&[self.1, self.2])?,
            _ => w.write_collection([self.1, self.2])?,
        }
        w.write_u8(0x5a)
    }
}
fn puts<T: Prim>() {
    expect("done");
    let e = endian();
    let x = u128::from_le_bytes(bytes());
    let y = u128::from_le_bytes(bytes());
    let (a, b) = (T::make(x), T::make(y));
    let mut want = bytes_of(a.bits(), T::W, is_be(e));
    want.extend(bytes_of(b.bits(), T::W, is_be(e)));
    want.push(0x5a);
    observe_bytes(&want);
    let p = Put(choose(4) as u8, a, b);
    match p.bytes_needed() { Ok(n) => check(n == want.len(), "the predicted size is wrong"), Err(_) => check(false, "the size cannot be predicted") }
    for k in 0..SINKS {
        match write(k, Cx(e, 0), &p) {
            Ok(b) => check(eq(&b, &want), "the bytes written are wrong"),
            Err(_) => check(false, "a value cannot be written"),
        }
    }
    cover("done");
}
fn orders<T: Prim>() {
    expect("done");
    let e = endian();
    let conv = e != Endianness::NATIVE;
    check(e.conversion_necessary() == conv, "conversion_necessary is wrong");
    let mut v: Vec<T> = (0..choose(4)).map(|_| T::make(u128::from_le_bytes(bytes()))).collect();
    let old: Vec<u128> = v.iter().map(|x| x.bits()).collect();
    let want = |x: u128| number(&bytes_of(x, T::W, false), conv != cfg!(target_endian = "big"));
    T::swap_all(e, &mut v);
    for (n, o) in v.iter().zip(&old) {
        check(n.bits() == want(*o), "a slice is swapped wrongly");
        let mut x = T::make(*o);
        T::swap(e, &mut x);
        check(x.bits() == want(*o), "a value is swapped wrongly");
        if let Some(y) = T::from_slice(e, &bytes_of(*o, T::W, is_be(e))) { check(y.bits() == *o, "a value is read from a slice wrongly") }
    }
    cover("done");
}
/// The functions without a context, and those with a fixed one, against the ones with `Endianness`.
trait Plain2: Sized + PartialEq + for<'a> Readable<'a, LittleEndian> + Writable<LittleEndian> + for<'a> Readable<'a, BigEndian> + Writable<BigEndian> + for<'a> Readable<'a, Endianness> + Writable<Endianness> {}
impl<T: PartialEq + for<'a> Readable<'a, LittleEndian> + Writable<LittleEndian> + for<'a> Readable<'a, BigEndian> + Writable<BigEndian> + for<'a> Readable<'a, Endianness> + Writable<Endianness>> Plain2 for T {}
fn same<T: PartialEq>(a: &Result<T, speedy::Error>, b: &Result<T, speedy::Error>) -> bool {
    match (a, b) { (Ok(x), Ok(y)) => x == y, (Err(x), Err(y)) => x.is_eof() == y.is_eof(), _ => false }
}
fn defaults_read<T: Plain2>(max: usize) {
    expect("ok");
    expect("err");
    let b = byte_vec(choose(max + 1));
    let le = Endianness::LittleEndian;
    let (want, n) = <T as Readable<Endianness>>::read_with_length_from_buffer_with_ctx(le, &b);
    cover(if want.is_ok() { "ok" } else { "err" });
    check(same(&<T as Readable<LittleEndian>>::read_from_buffer(&b), &want), "read_from_buffer differs from little endian");
    let (v, m) = <T as Readable<LittleEndian>>::read_with_length_from_buffer(&b);
    check(same(&v, &want) && (m == n || want.is_err()), "read_with_length_from_buffer differs from little endian");
    check(same(&<T as Readable<LittleEndian>>::read_from_buffer_copying_data(&b), &want), "read_from_buffer_copying_data differs from little endian");
    let (v, m) = <T as Readable<LittleEndian>>::read_with_length_from_buffer_copying_data(&b);
    check(same(&v, &want) && (m == n || want.is_err()), "read_with_length_from_buffer_copying_data differs from little endian");
    let want = <T as Readable<Endianness>>::read_from_stream_unbuffered_with_ctx(le, &b[..]);
    check(same(&<T as Readable<LittleEndian>>::read_from_stream_unbuffered(&b[..]), &want), "read_from_stream_unbuffered differs from little endian");
    let want = <T as Readable<Endianness>>::read_from_stream_buffered_with_ctx(le, &b[..]);
    check(same(&<T as Readable<LittleEndian>>::read_from_stream_buffered(&b[..]), &want), "read_from_stream_buffered differs from little endian");
    for k in 0..SOURCES {
        check(same(&read::<_, T>(k, LittleEndian {}, &b).0, &read::<_, T>(k, le, &b).0), "LittleEndian differs from Endianness::LittleEndian");
        check(same(&read::<_, T>(k, BigEndian {}, &b).0, &read::<_, T>(k, Endianness::BigEndian, &b).0), "BigEndian differs from Endianness::BigEndian");
    }
}
fn defaults_write<T: Plain2 + crate::val::Val>() {
    expect("done");
    let v = T::gen();
    let want = crate::val::encode(&v, false);
    let ok = |r: Result<Vec<u8>, speedy::Error>| match r { Ok(b) => check(eq(&b, &want), "the bytes written differ from little endian"), Err(_) => check(false, "a value cannot be written") };
    ok(<T as Writable<LittleEndian>>::write_to_vec(&v));
    let mut s = vec![];
    let r = <T as Writable<LittleEndian>>::write_to_stream(&v, &mut s).map(|_| ());
    ok(r.map(|_| s));
    let mut s = vec![0x77u8; want.len()];
    let r = <T as Writable<LittleEndian>>::write_to_buffer(&v, &mut s);
    ok(r.map(|_| s));
    for k in 0..SINKS {
        ok(write(k, LittleEndian {}, &v));
        match write(k, BigEndian {}, &v) { Ok(b) => check(eq(&b, &crate::val::encode(&v, true)), "the bytes written differ from big endian"), Err(_) => check(false, "a value cannot be written") }
    }
    cover("done");
}
#[derive(PartialEq, Readable, Writable)]
struct Mixed { a: u8, b: u16, c: Option<u32>, d: Vec<u16>, #[speedy(varint)] e: u64 }
impl crate::val::Val for Mixed {
    fn gen() -> Self { use crate::val::Val; Mixed { a: Val::gen(), b: Val::gen(), c: Val::gen(), d: Val::gen(), e: Val::gen() } }
    fn enc(&self, o: &mut Out) { use crate::val::Val; self.a.enc(o); self.b.enc(o); self.c.enc(o); self.d.enc(o); o.varint(self.e) }
}
macro_rules! all { ($($g:ident $gl:ident $p:ident $o:ident $t:ident;)*) => { crate::entries! {
    $( $g { gets::<$t>(0) } $gl { gets::<$t>(3) } $p { puts::<$t>() } $o { orders::<$t>() } )*
    default_read_u32 { defaults_read::<u32>(6) }
    default_read_vec { defaults_read::<Vec<u16>>(9) }
    default_read_string { defaults_read::<String>(8) }
    default_read_struct { defaults_read::<Mixed>(15) }
    default_read_tuple { defaults_read::<(u8, i32, bool)>(7) }
    default_write_u32 { defaults_write::<u32>() }
    default_write_vec { defaults_write::<Vec<u16>>() }
    default_write_string { defaults_write::<String>() }
    default_write_struct { defaults_write::<Mixed>() }
    default_write_tuple { defaults_write::<(u8, i32, bool)>() }
} } }
all! {
    get_u8 get3_u8 put_u8 swap_u8 u8; get_i8 get3_i8 put_i8 swap_i8 i8; get_u16 get3_u16 put_u16 swap_u16 u16; get_i16 get3_i16 put_i16 swap_i16 i16;
    get_u32 get3_u32 put_u32 swap_u32 u32; get_i32 get3_i32 put_i32 swap_i32 i32; get_u64 get3_u64 put_u64 swap_u64 u64; get_i64 get3_i64 put_i64 swap_i64 i64;
    get_u128 get3_u128 put_u128 swap_u128 u128; get_i128 get3_i128 put_i128 swap_i128 i128; get_f32 get3_f32 put_f32 swap_f32 f32; get_f64 get3_f64 put_f64 swap_f64 f64;
}
