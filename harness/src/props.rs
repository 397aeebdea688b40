//! Property bodies, generic over a type family.
use crate::fam::Fam;
use crate::sx::*;
use crate::val::*;
use speedy::{Endianness, IsEof, Readable, Writable};

pub fn endian() -> Endianness {
    if choose(2) == 0 { Endianness::LittleEndian } else { Endianness::BigEndian }
}
pub fn is_be(e: Endianness) -> bool {
    e == Endianness::BigEndian
}
/// Reads `buf` completely; afterwards tells how many bytes were taken from the stream.
pub struct Counted<'b> {
    pub b: &'b [u8],
    pub pos: usize,
}
impl<'b> std::io::Read for &mut Counted<'b> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = out.len().min(self.b.len() - self.pos);
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Reads the encoding of `want` back through every kind of source.
fn read_all<F: Fam>(e: Endianness, bytes: &[u8], want: &[u8]) {
    match F::T::read_from_buffer_with_ctx(e, bytes) {
        Ok(v) => check(eq(&canon(&v), want), "read_from_buffer returns a different value"),
        Err(_) => check(false, "read_from_buffer rejects an encoding"),
    }
    let (r, n) = F::T::read_with_length_from_buffer_with_ctx(e, bytes);
    check(n == bytes.len(), "read_with_length_from_buffer does not consume the whole encoding");
    match r {
        Ok(v) => check(eq(&canon(&v), want), "read_with_length_from_buffer returns a different value"),
        Err(_) => check(false, "read_with_length_from_buffer rejects an encoding"),
    }
    if F::STREAM {
        match F::T::read_from_buffer_copying_data_with_ctx(e, bytes) {
            Ok(v) => check(eq(&canon(&v), want), "read_from_buffer_copying_data returns a different value"),
            Err(_) => check(false, "read_from_buffer_copying_data rejects an encoding"),
        }
        let (r, n) = F::T::read_with_length_from_buffer_copying_data_with_ctx(e, bytes);
        check(n == bytes.len(), "read_with_length_from_buffer_copying_data does not consume the whole encoding");
        match r {
            Ok(v) => check(eq(&canon(&v), want), "read_with_length_from_buffer_copying_data returns a different value"),
            Err(_) => check(false, "read_with_length_from_buffer_copying_data rejects an encoding"),
        }
        let mut c = Counted { b: bytes, pos: 0 };
        match F::T::read_from_stream_unbuffered_with_ctx(e, &mut c) {
            Ok(v) => check(eq(&canon(&v), want), "read_from_stream_unbuffered returns a different value"),
            Err(_) => check(false, "read_from_stream_unbuffered rejects an encoding"),
        }
        check(c.pos == bytes.len(), "read_from_stream_unbuffered does not consume the whole encoding");
        let mut c = Counted { b: bytes, pos: 0 };
        match F::T::read_from_stream_buffered_with_ctx(e, &mut c) {
            Ok(v) => check(eq(&canon(&v), want), "read_from_stream_buffered returns a different value"),
            Err(_) => check(false, "read_from_stream_buffered rejects an encoding"),
        }
    }
    if e == Endianness::LittleEndian {
        cover("le");
    } else {
        cover("be");
    }
}
fn seen<F: Fam>(b: &[u8]) {
    if F::ORDERED { observe_bytes(b) } else { observe(b.len() as u64) }
}
/// P01: every value reads back as itself from its own encoding.
pub fn roundtrip<F: Fam>() {
    expect("le");
    expect("be");
    let e = endian();
    let v = F::gen();
    let want = canon(&v);
    observe_bytes(&want);
    match v.write_to_vec_with_ctx(e) {
        Ok(b) => { seen::<F>(&b); read_all::<F>(e, &b, &want) }
        Err(_) => check(false, "a valid value cannot be written"),
    }
}
/// P02: the bytes written are the documented ones, and the documented bytes are read.
pub fn format<F: Fam>() {
    expect("le");
    expect("be");
    let e = endian();
    let v = F::gen();
    let refe = encode(&v, is_be(e));
    match v.write_to_vec_with_ctx(e) {
        Ok(b) => { seen::<F>(&b); check(eq(&b, &refe), "the encoding differs from the documented format") }
        Err(_) => check(false, "a valid value cannot be written"),
    }
    let want = canon(&v);
    read_all::<F>(e, &refe, &want)
}

// ---------------------------------------------------------------- P03
/// A stream that accepts two bytes (a large value: 1000) at a time and is interrupted before every second write.
struct Slow<'b> {
    b: &'b mut Vec<u8>,
    n: usize,
    big: bool,
}
impl<'b> std::io::Write for Slow<'b> {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n % 2 == 1 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = d.len().min(if self.big { 1000 } else { 2 });
        self.b.extend_from_slice(&d[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// A user-defined writer with nothing but the required methods.
pub struct Plain {
    pub e: Endianness,
    pub b: Vec<u8>,
}
impl speedy::Writer<Endianness> for Plain {
    fn write_bytes(&mut self, s: &[u8]) -> Result<(), speedy::Error> {
        self.b.extend_from_slice(s);
        Ok(())
    }
    fn context(&self) -> &Endianness { &self.e }
    fn context_mut(&mut self) -> &mut Endianness { &mut self.e }
}
/// P03: every writer produces the same bytes, and `bytes_needed` is their number.
pub fn sizes<F: Fam>() {
    expect("done");
    let mut e = endian();
    let v = F::gen();
    let n = match Writable::<Endianness>::bytes_needed(&v) {
        Ok(n) => n,
        Err(_) => { check(false, "bytes_needed fails for a valid value"); return }
    };
    let b = match v.write_to_vec_with_ctx(e) {
        Ok(b) => b,
        Err(_) => { check(false, "write_to_vec fails for a valid value"); return }
    };
    seen::<F>(&b);
    check(b.len() == n, "bytes_needed is not the number of bytes written");
    match v.write_to_vec_with_ctx_mut(&mut e) {
        Ok(x) => check(eq(&x, &b), "write_to_vec_with_ctx_mut writes something else"),
        Err(_) => check(false, "write_to_vec_with_ctx_mut fails"),
    }
    // a buffer of exactly the right size, and one that is larger
    for extra in [0, 3] {
        let fillv = any_u8();
        let mut buf = vec![fillv; n + extra];
        check(v.write_to_buffer_with_ctx(e, &mut buf).is_ok(), "write_to_buffer fails with a buffer that is large enough");
        check(eq(&buf[..n], &b), "write_to_buffer writes something else");
        check(eq(&buf[n..], &[fillv; 3][..extra]), "write_to_buffer touches bytes after the value");
        let mut buf = vec![fillv; n + extra];
        check(v.write_to_buffer_with_ctx_mut(&mut e, &mut buf).is_ok(), "write_to_buffer_with_ctx_mut fails with a buffer that is large enough");
        check(eq(&buf[..n], &b), "write_to_buffer_with_ctx_mut writes something else");
    }
    for short in [1, n / 2 + 1, n] {
        if short > 0 && short <= n {
            let mut buf = vec![0u8; n - short];
            check(v.write_to_buffer_with_ctx(e, &mut buf).is_err(), "write_to_buffer succeeds with a buffer that is too small");
        }
    }
    let mut s = Vec::new();
    check(v.write_to_stream_with_ctx(e, &mut s).is_ok(), "write_to_stream fails");
    check(eq(&s, &b), "write_to_stream writes something else");
    let mut s = Vec::new();
    check(v.write_to_stream_with_ctx(e, Slow { b: &mut s, n: 0, big: n > 200 }).is_ok(), "write_to_stream fails on a slow stream");
    check(eq(&s, &b), "write_to_stream writes something else to a slow stream");
    let mut w = Plain { e, b: Vec::new() };
    check(v.write_to(&mut w).is_ok(), "write_to fails with a user-defined writer");
    check(eq(&w.b, &b), "write_to writes something else to a user-defined writer");
    // references and boxes are transparent
    match (&v).write_to_vec_with_ctx(e) {
        Ok(x) => check(eq(&x, &b), "a reference is written differently"),
        Err(_) => check(false, "a reference cannot be written"),
    }
    cover("done");
}

// ---------------------------------------------------------------- P04
/// A stream that returns at most `step` bytes per call.
pub struct Chunked<'b> {
    pub b: &'b [u8],
    pub pos: usize,
    pub step: usize,
}
impl<'b> std::io::Read for &mut Chunked<'b> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = out.len().min(self.b.len() - self.pos).min(self.step);
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// bound on the length of arbitrary inputs
pub fn bound<F: Fam>() -> usize {
    F::N + if cfg!(feature = "thorough") { 2 } else { 0 }
}
fn same<T: Val, E>(r: &Result<T, E>, ok: bool, want: &[u8], msg: &'static str) {
    match r {
        Ok(v) => check(ok && eq(&canon(v), want), msg),
        Err(_) => check(!ok, msg),
    }
}
/// P04: on any input all sources agree: accept or reject, value, and number of bytes consumed.
pub fn readers<F: Fam>() {
    let e = endian();
    let n = choose(bound::<F>() + 1);
    let b = byte_vec(n);
    readers_on::<F>(e, &b)
}
pub fn readers_on<F: Fam>(e: Endianness, b: &[u8]) {
    let n = b.len();
    let wide = if n > 200 { 900 } else { 0 };
    let (r, used) = F::T::read_with_length_from_buffer_with_ctx(e, b);
    let (ok, want) = match &r {
        Ok(v) => (true, canon(v)),
        Err(_) => (false, vec![]),
    };
    observe(ok as u64);
    observe_bytes(&want);
    if ok { observe(used as u64); }
    check(used <= n, "more bytes reported as consumed than there are");
    same(&F::T::read_from_buffer_with_ctx(e, b), ok, &want, "read_from_buffer and read_with_length_from_buffer disagree");
    if ok && !F::CUT && used < n {
        let (r, again) = F::T::read_with_length_from_buffer_with_ctx(e, &b[..used]);
        same(&r, true, &want, "the value is not made of the bytes reported as consumed");
        check(again == used, "the number of bytes consumed depends on what follows them");
    }
    let (c, used2) = F::T::read_with_length_from_buffer_copying_data_with_ctx(e, b);
    let c2 = F::T::read_from_buffer_copying_data_with_ctx(e, b);
    let mut ctr = Counted { b, pos: 0 };
    let s = F::T::read_from_stream_unbuffered_with_ctx(e, &mut ctr);
    let mut one = Chunked { b, pos: 0, step: 1 + wide };
    let t = F::T::read_from_stream_unbuffered_with_ctx(e, &mut one);
    let mut big = Counted { b, pos: 0 };
    let u = F::T::read_from_stream_buffered_with_ctx(e, &mut big);
    let mut few = Chunked { b, pos: 0, step: 3 + wide };
    let w = F::T::read_from_stream_buffered_with_ctx(e, &mut few);
    if F::STREAM {
        same(&c, ok, &want, "the copying and the borrowing buffer reader disagree");
        same(&c2, ok, &want, "read_from_buffer_copying_data and read_from_buffer disagree");
        let value = |r: &Result<F::T<'_>, speedy::Error>| match r {
            Ok(v) => (true, canon(v)),
            Err(_) => (false, vec![]),
        };
        let ((ok1, want1), (ok2, want2)) = if F::CUT { (value(&s), value(&u)) } else { ((ok, want.clone()), (ok, want.clone())) };
        same(&s, ok1, &want1, "the unbuffered stream reader and the buffer reader disagree");
        same(&t, ok1, &want1, "the unbuffered stream reader depends on how the stream is chunked");
        same(&u, ok2, &want2, "the buffered stream reader and the buffer reader disagree");
        same(&w, ok2, &want2, "the buffered stream reader depends on how the stream is chunked");
        if ok {
            check(used == used2, "the copying and the borrowing buffer reader consume different lengths");
            if F::EXACT {
                check(used == ctr.pos, "the unbuffered stream reader consumes a different length");
                check(used == one.pos, "the unbuffered stream reader consumes a different length from a slow stream");
            }
        }
    } else {
        check(c.is_err() && c2.is_err() && s.is_err() && t.is_err() && u.is_err() && w.is_err(), "a borrowed value was read from a source that cannot lend");
    }
}

// ---------------------------------------------------------------- P06
/// P06: whatever the input, reading ends with a value or an error: no panic, no undefined
/// behaviour, no leak, and no allocation out of proportion to a buffer's size.
pub fn robust<F: Fam>() {
    let e = endian();
    let n = choose(bound::<F>() + 1);
    let b = byte_vec(n);
    robust_on::<F>(e, &b)
}
pub fn robust_on<F: Fam>(e: Endianness, b: &[u8]) {
    let n = b.len();
    let before = live_heap();
    match choose(4) {
        0 => {
            alloc_limit(64 * n + 1024);
            let r = F::T::read_with_length_from_buffer_with_ctx(e, b);
            alloc_limit(0);
            check(r.1 <= n, "more bytes reported as consumed than there are");
            observe(r.0.is_ok() as u64);
            let _ = use_it(&r.0);
        }
        1 => {
            alloc_limit(64 * n + 1024);
            let r = F::T::read_with_length_from_buffer_copying_data_with_ctx(e, b);
            alloc_limit(0);
            check(r.1 <= n, "more bytes reported as consumed than there are");
            observe(r.0.is_ok() as u64);
            let _ = use_it(&r.0);
        }
        2 => {
            let r = F::T::read_from_stream_unbuffered_with_ctx(e, &mut Counted { b, pos: 0 });
            observe(r.is_ok() as u64);
            let _ = use_it(&r);
        }
        _ => {
            let r = F::T::read_from_stream_buffered_with_ctx(e, &mut Counted { b, pos: 0 });
            observe(r.is_ok() as u64);
            let _ = use_it(&r);
        }
    }
    check(live_heap() == before, "memory is leaked");
}
/// looks at every byte of the value, so that an uninitialised or dangling one is noticed
fn use_it<T: Val, E>(r: &Result<T, E>) {
    if let Ok(v) = r {
        let mut o = Out::new(false);
        o.canon = true;
        o.valid = true;
        v.enc(&mut o);
        observe_bytes(&o.b);
    }
}

// ---------------------------------------------------------------- P07
/// P07: an encoding is self-delimiting: a strict prefix is rejected as the end of input, and
/// what follows it is left alone.
pub fn truncated<F: Fam>() {
    expect("done");
    let e = endian();
    let v = F::gen();
    let want = canon(&v);
    let b = match v.write_to_vec_with_ctx(e) {
        Ok(b) => b,
        Err(_) => { check(false, "a valid value cannot be written"); return }
    };
    seen::<F>(&b);
    let n = b.len();
    for k in 0..n {
        // (a large value: not every truncation)
        if n > 200 && k > 9 && k + 3 < n && ![n / 2, 127, 1024, 8191, 8192, 8193].contains(&k) { continue }
        let p = &b[..k];
        let (r, used) = F::T::read_with_length_from_buffer_with_ctx(e, p);
        check(r.is_err(), "a truncated buffer is accepted");
        check(used <= k, "more bytes reported as consumed than there are");
        if F::STREAM {
            check(F::T::read_from_buffer_copying_data_with_ctx(e, p).is_err(), "a truncated buffer is accepted by the copying reader");
            let mut c = Chunked { b: p, pos: 0, step: if n > 200 { 3000 } else { 5 } };
            match F::T::read_from_stream_unbuffered_with_ctx(e, &mut c) {
                Ok(_) => check(false, "a truncated stream is accepted"),
                Err(x) => check(x.is_eof(), "a truncated stream is not reported as the end of input"),
            }
            let mut c = Chunked { b: p, pos: 0, step: if n > 200 { 3000 } else { 5 } };
            match F::T::read_from_stream_buffered_with_ctx(e, &mut c) {
                Ok(_) => check(false, "a truncated buffered stream is accepted"),
                Err(x) => check(x.is_eof(), "a truncated buffered stream is not reported as the end of input"),
            }
        }
    }
    let mut long = b;
    long.extend_from_slice(&bytes::<3>());
    let (r, used) = F::T::read_with_length_from_buffer_with_ctx(e, &long);
    check(used == n, "the consumed length is wrong when more data follows");
    same(&r, true, &want, "data after the value changes it");
    if F::STREAM {
        let (r, used) = F::T::read_with_length_from_buffer_copying_data_with_ctx(e, &long);
        check(used == n, "the consumed length is wrong when more data follows (copying)");
        same(&r, true, &want, "data after the value changes it (copying)");
        let mut c = Chunked { b: &long, pos: 0, step: if n > 200 { 3000 } else { 4 } };
        same(&F::T::read_from_stream_unbuffered_with_ctx(e, &mut c), true, &want, "data after the value changes it (stream)");
        check(c.pos == n, "the unbuffered reader takes bytes beyond the value");
        let mut c = Counted { b: &long, pos: 0 };
        same(&F::T::read_from_stream_unbuffered_with_ctx(e, &mut c), true, &want, "data after the value changes it (stream)");
        check(c.pos == n, "the unbuffered reader takes bytes beyond the value");
        let mut c = Counted { b: &long, pos: 0 };
        same(&F::T::read_from_stream_buffered_with_ctx(e, &mut c), true, &want, "data after the value changes it (buffered stream)");
    }
    cover("done");
}
pub fn truncated_exact<F: Fam>() {
    if F::EXACT { truncated::<F>() }
}

// ---------------------------------------------------------------- P08
fn min_of<'a, T: Readable<'a, Endianness>>() -> usize {
    T::minimum_bytes_needed()
}
/// P08: `minimum_bytes_needed` never exceeds the length of an accepted encoding, alone or inside other types.
pub fn minimum<F: Fam>() {
    let e = endian();
    let m = min_of::<F::T<'_>>();
    observe(m as u64);
    if choose(2) == 0 {
        let v = F::gen();
        let n = encode(&v, is_be(e)).len();
        check(m <= n, "minimum_bytes_needed exceeds the length of an encoding");
        check(min_of::<Option<F::T<'_>>>() <= 1, "minimum_bytes_needed of an Option exceeds that of None");
        check(min_of::<Box<F::T<'_>>>() <= n, "minimum_bytes_needed of a Box is too large");
        check(min_of::<[F::T<'_>; 2]>() <= 2 * n, "minimum_bytes_needed of an array is too large");
        check(min_of::<(F::T<'_>, F::T<'_>)>() <= 2 * n, "minimum_bytes_needed of a tuple is too large");
        check(min_of::<(u8, F::T<'_>, u16)>() <= n + 3, "minimum_bytes_needed of a tuple is too large");
        check(min_of::<Result<F::T<'_>, F::T<'_>>>() <= n + 1, "minimum_bytes_needed of a Result is too large");
        check(min_of::<Result<F::T<'_>, [u64; 9]>>() <= n + 1, "minimum_bytes_needed of a Result is too large");
        check(min_of::<Result<[u64; 9], F::T<'_>>>() <= n + 1, "minimum_bytes_needed of a Result is too large");
        check(min_of::<std::ops::Range<F::T<'_>>>() <= 2 * n, "minimum_bytes_needed of a Range is too large");
        check(min_of::<std::ops::RangeInclusive<F::T<'_>>>() <= 2 * n, "minimum_bytes_needed of a RangeInclusive is too large");
        check(min_of::<Vec<F::T<'_>>>() <= 4, "minimum_bytes_needed of a Vec is too large");
        check(min_of::<crate::dt::SPair<F::T<'_>, F::T<'_>>>() <= 2 * n, "minimum_bytes_needed of a derived struct is too large");
        check(min_of::<crate::dt::SArrGen<F::T<'_>>>() <= 2 * n, "minimum_bytes_needed of a derived struct with an array is too large");
        check(min_of::<crate::dt::EGen<'_, F::T<'_>>>() <= n + 2, "minimum_bytes_needed of a derived enum is too large");
    } else if F::STREAM {
        let n = choose(bound::<F>() + 1);
        let b = byte_vec(n);
        let mut c = Counted { b: &b, pos: 0 };
        if F::T::read_from_stream_unbuffered_with_ctx(e, &mut c).is_ok() {
            check(m <= c.pos, "minimum_bytes_needed exceeds the length of an accepted input");
        }
    }
}

// ---------------------------------------------------------------- P21
/// P21: what is accepted is a proper encoding: writing the value gives the bytes that were read
/// (types with several encodings of a value: gives bytes that read as the same value).
pub fn strict<F: Fam>() {
    let e = endian();
    let n = choose(bound::<F>() + 1);
    let b = byte_vec(n);
    strict_on::<F>(e, &b)
}
pub fn strict_on<F: Fam>(e: Endianness, b: &[u8]) {
    let (r, used) = F::T::read_with_length_from_buffer_with_ctx(e, b);
    let _ = use_it(&r);
    if let Ok(v) = r {
        let w = match v.write_to_vec_with_ctx(e) {
            Ok(w) => w,
            Err(_) => { check(F::LOSSY, "a value that was read cannot be written"); return }
        };
        observe_bytes(&w);
        if F::CANON {
            check(eq(&w, &b[..used]), "an input that is no encoding of any value is accepted");
        } else {
            match F::T::read_from_buffer_with_ctx(e, &w) {
                Ok(x) => check(eq(&canon(&x), &canon(&v)), "a value that was read is written as a different one"),
                Err(_) => check(false, "a value that was read is written so that it cannot be read"),
            }
        }
    }
}

// ---------------------------------------------------------------- P10
/// P10: the value does not depend on where in memory its encoding lies, and what is not borrowed
/// stays intact when the input goes away.
pub fn placed<F: Fam>() {
    expect("done");
    let e = endian();
    let v = F::gen();
    let want = canon(&v);
    let b = match v.write_to_vec_with_ctx(e) {
        Ok(b) => b,
        Err(_) => { check(false, "a valid value cannot be written"); return }
    };
    seen::<F>(&b);
    let n = b.len();
    let offsets: &[usize] = if n > 20000 { &[1] } else if n > 200 { &[0, 1, 4] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8] };
    for k in offsets.iter().copied() {
        // allocated with an alignment of 16
        let mut buf = vec![0u128; (n + k + 15) / 16 + 1];
        let p = buf.as_mut_ptr() as *mut u8;
        let place = unsafe { std::slice::from_raw_parts_mut(p.add(k), n) };
        place.copy_from_slice(&b);
        match F::T::read_from_buffer_with_ctx(e, &place[..]) {
            Ok(x) => check(eq(&canon(&x), &want), "the value depends on the alignment of the buffer"),
            Err(_) => check(false, "an encoding is rejected because of its alignment"),
        }
        if F::STREAM {
            let x = F::T::read_from_buffer_copying_data_with_ctx(e, &place[..]);
            let y = F::T::read_from_stream_buffered_with_ctx(e, &place[..]);
            place.fill(0xEE);
            drop(buf);
            for r in [x, y] {
                match r {
                    Ok(x) => check(eq(&canon(&x), &want), "a copied value changes with the input"),
                    Err(_) => check(false, "an encoding is rejected because of its alignment"),
                }
            }
        }
    }
    cover("done");
}

#[cfg(feature = "p22c")]
pub use crate::p22::contexts;

#[cfg(feature = "p15r")] pub use crate::p15::reads as faulty_reads;
#[cfg(feature = "p15w")] pub use crate::p15::writes as faulty_writes;
