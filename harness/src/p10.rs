//! P10: borrowed data aliases the input.
use crate::props::{endian, is_be};
use crate::sx::*;
use crate::val::*;
use speedy::{BigEndian, Context, Endianness, LittleEndian, Readable, Writable};
use std::borrow::Cow;
use std::mem::{align_of, size_of};

/// Bytes at an offset from an address that is a multiple of 16.
struct Placed { buf: Vec<u128>, k: usize, n: usize }
impl Placed {
    fn new(k: usize, b: &[u8]) -> Placed {
        let mut p = Placed { buf: vec![0u128; (b.len() + k + 15) / 16 + 1], k, n: b.len() };
        let at = unsafe { std::slice::from_raw_parts_mut((p.buf.as_mut_ptr() as *mut u8).add(k), b.len()) };
        at.copy_from_slice(b);
        p
    }
    fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts((self.buf.as_ptr() as *const u8).add(self.k), self.n) } }
}
fn within(p: *const u8, b: &[u8], at: usize) -> bool { p as usize == b.as_ptr() as usize + at }
fn image<T: Val>(x: &[T], be: bool) -> Vec<u8> { let mut o = Out::new(be); enc_items(x, &mut o); o.b }

/// `&[T]`: lent by the buffer, at the right place, or rejected when it would be misaligned.
fn refs<T: Val + 'static, C: Context + Default>(be: bool, max: usize) where for<'a> &'a [T]: Readable<'a, C> {
    expect("lent");
    if align_of::<T>() > 1 { expect("misaligned") }
    let n = choose(max + 1);
    let k = choose(17);
    let extra = choose(2);
    let body = byte_vec(n * size_of::<T>());
    let mut b = Vec::new();
    b.extend_from_slice(&if be { (n as u32).to_be_bytes() } else { (n as u32).to_le_bytes() });
    b.extend_from_slice(&body);
    if extra == 1 { b.extend_from_slice(&bytes::<1>()) }
    let p = Placed::new(k, &b);
    let aligned = (k + 4) % align_of::<T>() == 0;
    let (r, used) = <&[T]>::read_with_length_from_buffer_with_ctx(C::default(), p.bytes());
    match r {
        Ok(v) => {
            check(aligned || n == 0, "a misaligned reference is produced");
            check(v.len() == n, "a reference has the wrong length");
            check(n == 0 || within(v.as_ptr() as *const u8, p.bytes(), 4), "a reference does not point at its data in the input");
            check(used == 4 + body.len(), "the length consumed is wrong");
            let raw = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * size_of::<T>()) };
            check(eq(raw, &body), "a reference has the wrong contents");
            check(eq(&image(v, be), &body), "a reference has the wrong value");
            cover("lent");
        }
        Err(_) => { check(!aligned, "a reference is rejected although it is aligned"); cover("misaligned") }
    }
    // only the borrowing reader can lend
    check(<&[T]>::read_from_buffer_copying_data_with_ctx(C::default(), p.bytes()).is_err(), "the copying reader lends");
    check(<&[T]>::read_from_stream_unbuffered_with_ctx(C::default(), p.bytes()).is_err(), "a stream lends");
    check(<&[T]>::read_from_stream_buffered_with_ctx(C::default(), p.bytes()).is_err(), "a buffered stream lends");
}
/// `&[T; 3]`
fn arrays<T: Val + 'static, C: Context + Default>(be: bool) where for<'a> &'a [T; 3]: Readable<'a, C> {
    expect("lent");
    if align_of::<T>() > 1 { expect("misaligned") }
    let k = choose(17);
    let body = byte_vec(3 * size_of::<T>());
    let p = Placed::new(k, &body);
    let aligned = k % align_of::<T>() == 0;
    let (r, used) = <&[T; 3]>::read_with_length_from_buffer_with_ctx(C::default(), p.bytes());
    match r {
        Ok(v) => {
            check(aligned, "a misaligned reference is produced");
            check(within(v.as_ptr() as *const u8, p.bytes(), 0), "a reference does not point at its data in the input");
            check(used == body.len(), "the length consumed is wrong");
            check(eq(&image(&v[..], be), &body), "a reference has the wrong value");
            cover("lent");
        }
        Err(_) => { check(!aligned, "a reference is rejected although it is aligned"); cover("misaligned") }
    }
    check(<&[T; 3]>::read_from_buffer_copying_data_with_ctx(C::default(), p.bytes()).is_err(), "the copying reader lends");
    check(<&[T; 3]>::read_from_stream_unbuffered_with_ctx(C::default(), p.bytes()).is_err(), "a stream lends");
}
/// `Cow<[T]>`: borrowed exactly when the bytes in place are the value.
fn cows<T: Val + Clone + 'static>(must: bool, max: usize) where for<'a> T: Readable<'a, Endianness> + Writable<Endianness> {
    expect("borrowed");
    if size_of::<T>() > 1 {
        expect("owned");
    }
    let e = endian();
    let v: Vec<T> = (0..choose(max + 1)).map(|_| T::gen()).collect();
    let n = v.len();
    let want = image(&v, false);
    let b = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a value cannot be written"); return } };
    let k = choose(17);
    let p = Placed::new(k, &b);
    let possible = (k + 4) % align_of::<T>() == 0 && (e == Endianness::NATIVE || size_of::<T>() == 1);
    let (r, used) = <Cow<[T]>>::read_with_length_from_buffer_with_ctx(e, p.bytes());
    match r {
        Ok(v) => {
            check(used == b.len(), "the length consumed is wrong");
            check(v.len() == n, "the wrong number of elements");
            check(eq(&image(&v, false), &want), "the wrong elements");
            match v {
                Cow::Borrowed(x) => {
                    check(possible || n == 0, "borrowed although the bytes in place are not the value");
                    check(n == 0 || within(x.as_ptr() as *const u8, p.bytes(), 4), "a borrowed value does not point at its data in the input");
                    cover("borrowed");
                }
                Cow::Owned(_) => { check(!(must && possible && n > 0), "copied although it could be borrowed"); cover("owned") }
            }
        }
        Err(_) => check(false, "an encoding is rejected"),
    }
    match <Cow<[T]>>::read_from_buffer_copying_data_with_ctx(e, p.bytes()) {
        Ok(v) => check(matches!(v, Cow::Owned(_)) && eq(&image(&v, false), &want), "the copying reader lends or returns something else"),
        Err(_) => check(false, "an encoding is rejected by the copying reader"),
    }
    match <Cow<[T]>>::read_from_stream_buffered_with_ctx(e, p.bytes()) {
        Ok(v) => check(matches!(v, Cow::Owned(_)) && eq(&image(&v, false), &want), "the stream reader lends or returns something else"),
        Err(_) => check(false, "an encoding is rejected by the stream reader"),
    }
}
/// All that a derived struct can borrow, at known places.
#[derive(Readable)]
struct Fields<'a> {
    a: u8,
    s: &'a str,
    b: &'a [u8],
    c: Cow<'a, str>,
    d: Cow<'a, [u8]>,
    n: u8,
    #[speedy(length = n)] e: &'a [u8],
    #[speedy(length = n)] f: &'a str,
    #[speedy(length = n)] g: Cow<'a, [u8]>,
    #[speedy(length = n)] h: Cow<'a, str>,
    #[speedy(length_type = u8)] i: &'a [i8],
    #[speedy(length_type = u16)] j: Cow<'a, str>,
    k: &'a [u8; 2],
    l: Option<&'a str>,
    #[speedy(length = ..)] z: &'a [u8],
}
fn fields() {
    expect("done");
    let e = endian();
    let n = choose(3);
    let mut o = Out::new(is_be(e));
    let ascii = |m: usize| { let b = byte_vec(m); for x in &b { assume(*x < 0x80) } b };
    o.u8(any_u8());
    let (s, b, c, d) = (ascii(2), byte_vec(n), ascii(n), byte_vec(1));
    o.len(2); let at_s = o.b.len(); o.raw(&s);
    o.len(n); let at_b = o.b.len(); o.raw(&b);
    o.len(n); let at_c = o.b.len(); o.raw(&c);
    o.len(1); let at_d = o.b.len(); o.raw(&d);
    o.u8(n as u8);
    let (e4, f, g, h) = (byte_vec(n), ascii(n), byte_vec(n), ascii(n));
    let at_e = o.b.len(); o.raw(&e4); let at_f = o.b.len(); o.raw(&f); let at_g = o.b.len(); o.raw(&g); let at_h = o.b.len(); o.raw(&h);
    let (i, j, kk, l, z) = (byte_vec(1), ascii(n), byte_vec(2), ascii(1), byte_vec(n));
    o.u8(1); let at_i = o.b.len(); o.raw(&i);
    o.u16(n as u16); let at_j = o.b.len(); o.raw(&j);
    let at_k = o.b.len(); o.raw(&kk);
    o.u8(1); o.len(1); let at_l = o.b.len(); o.raw(&l);
    let at_z = o.b.len(); o.raw(&z);
    let p = Placed::new(choose(3), &o.b);
    let (r, used) = Fields::read_with_length_from_buffer_with_ctx(e, p.bytes());
    check(used == o.b.len(), "the length consumed is wrong");
    let v = match r { Ok(v) => v, Err(_) => { check(false, "an encoding is rejected"); return } };
    let at = |x: &[u8], at: usize, want: &[u8]| check(eq(x, want) && (x.is_empty() || within(x.as_ptr(), p.bytes(), at)), "a borrowed field does not point at its data in the input");
    at(v.s.as_bytes(), at_s, &s);
    at(v.b, at_b, &b);
    at(v.c.as_bytes(), at_c, &c);
    at(&v.d, at_d, &d);
    at(v.e, at_e, &e4);
    at(v.f.as_bytes(), at_f, &f);
    at(&v.g, at_g, &g);
    at(v.h.as_bytes(), at_h, &h);
    at(unsafe { std::slice::from_raw_parts(v.i.as_ptr() as *const u8, v.i.len()) }, at_i, &i);
    at(v.j.as_bytes(), at_j, &j);
    at(v.k, at_k, &kk);
    match v.l { Some(x) => at(x.as_bytes(), at_l, &l), None => check(false, "an option is lost") }
    at(v.z, at_z, &z);
    observe(v.a as u64);
    for x in [Fields::read_from_buffer_copying_data_with_ctx(e, p.bytes()), Fields::read_from_stream_buffered_with_ctx(e, p.bytes())] {
        check(x.is_err(), "a source that cannot lend returns a reference");
    }
    cover("done");
}
#[derive(Readable, Writable, Clone)] #[repr(C)] struct Pc { a: u16, b: u16, c: u32 }
impl Val for Pc { fn gen() -> Self { Pc { a: Val::gen(), b: Val::gen(), c: Val::gen() } } fn enc(&self, o: &mut Out) { self.a.enc(o); self.b.enc(o); self.c.enc(o) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] struct Pk { a: u8, b: u32 }
impl Val for Pk { fn gen() -> Self { Pk { a: Val::gen(), b: Val::gen() } } fn enc(&self, o: &mut Out) { let (a, b) = (self.a, self.b); a.enc(o); b.enc(o) } }
#[derive(Readable, Writable, Clone)] struct Pb { a: u8, b: bool, c: u16 }
impl Val for Pb { fn gen() -> Self { Pb { a: Val::gen(), b: Val::gen(), c: Val::gen() } } fn enc(&self, o: &mut Out) { self.a.enc(o); self.b.enc(o); self.c.enc(o) } }
/// A type that is not transferred in bulk is always copied.
fn owned() {
    expect("done");
    let e = endian();
    let v: Vec<Pb> = (0..choose(3)).map(|_| Val::gen()).collect();
    let want = image(&v, false);
    let b = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a value cannot be written"); return } };
    let p = Placed::new(choose(5), &b);
    match <Cow<[Pb]>>::read_from_buffer_with_ctx(e, p.bytes()) {
        Ok(x) => { check(eq(&image(&x, false), &want) && matches!(x, Cow::Owned(_)), "borrowed although it may contain invalid bools"); cover("done") }
        Err(_) => check(false, "an encoding is rejected"),
    }
}
/// Text is borrowed if and only if it is valid.
fn text() {
    expect("borrowed");
    expect("invalid");
    let e = endian();
    let body = byte_vec(choose(5));
    let mut o = Out::new(is_be(e));
    o.len(body.len());
    o.raw(&body);
    let p = Placed::new(choose(4), &o.b);
    let valid = std::str::from_utf8(&body).is_ok();
    match <&str>::read_from_buffer_with_ctx(e, p.bytes()) {
        Ok(s) => { check(valid && eq(s.as_bytes(), &body) && (body.is_empty() || within(s.as_ptr(), p.bytes(), 4)), "text does not point at its data"); cover("borrowed") }
        Err(_) => { check(!valid, "text is rejected"); cover("invalid") }
    }
    match <Cow<str>>::read_from_buffer_with_ctx(e, p.bytes()) {
        Ok(s) => check(valid && eq(s.as_bytes(), &body) && (body.is_empty() || matches!(s, Cow::Borrowed(x) if within(x.as_ptr(), p.bytes(), 4))), "text is copied or does not point at its data"),
        Err(_) => check(!valid, "text is rejected"),
    }
}
const N: usize = if cfg!(feature = "thorough") { 3 } else { 2 };
crate::entries! {
    ref_u8 { refs::<u8, LittleEndian>(false, N) }
    ref_u8_be { refs::<u8, BigEndian>(true, N) }
    ref_i8 { refs::<i8, LittleEndian>(false, N) }
    ref_u16 { refs::<u16, LittleEndian>(false, N) }
    ref_i16 { refs::<i16, LittleEndian>(false, N) }
    ref_u32 { refs::<u32, LittleEndian>(false, N) }
    ref_i32 { refs::<i32, LittleEndian>(false, N) }
    ref_u64 { refs::<u64, LittleEndian>(false, N) }
    ref_i64 { refs::<i64, LittleEndian>(false, N) }
    ref_u128 { refs::<u128, LittleEndian>(false, N) }
    ref_i128 { refs::<i128, LittleEndian>(false, N) }
    ref_f32 { refs::<f32, LittleEndian>(false, N) }
    ref_f64 { refs::<f64, LittleEndian>(false, N) }
    ref_packed { refs::<Pk, LittleEndian>(false, N) }
    arr_u8 { arrays::<u8, BigEndian>(true) }
    arr_i8 { arrays::<i8, LittleEndian>(false) }
    arr_u16 { arrays::<u16, LittleEndian>(false) }
    arr_u32 { arrays::<u32, LittleEndian>(false) }
    arr_u64 { arrays::<u64, LittleEndian>(false) }
    arr_f64 { arrays::<f64, LittleEndian>(false) }
    cow_u8 { cows::<u8>(true, N) }
    cow_i8 { cows::<i8>(true, N) }
    cow_u16 { cows::<u16>(true, N) }
    cow_i16 { cows::<i16>(true, N) }
    cow_u32 { cows::<u32>(true, N) }
    cow_i32 { cows::<i32>(true, N) }
    cow_u64 { cows::<u64>(true, N) }
    cow_i64 { cows::<i64>(true, N) }
    cow_u128 { cows::<u128>(true, N) }
    cow_i128 { cows::<i128>(true, N) }
    cow_f32 { cows::<f32>(true, N) }
    cow_f64 { cows::<f64>(true, N) }
    cow_repr_c { cows::<Pc>(true, N) }
    cow_packed { cows::<Pk>(true, N) }
    cow_not_primitive { owned() }
    texts { text() }
    derived { fields() }
}
