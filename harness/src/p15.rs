//! P15: errors of the underlying stream.
use crate::fam::Fam;
use crate::props::{endian, is_be};
use crate::script::Op;
use crate::sx::*;
use crate::val::*;
use speedy::{Context, Endianness, Error, IsEof, Readable, Reader, Writable};
use std::io::ErrorKind;

/// What the error of a stream carries; it must arrive unharmed.
#[derive(Debug)]
struct Cause(u32);
impl std::fmt::Display for Cause { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("cause") } }
impl std::error::Error for Cause {}
/// How the stream fails.
#[derive(Copy, Clone, PartialEq)]
pub enum How { Custom(ErrorKind), Simple(ErrorKind), Os(i32), Interrupted, Nothing }
pub const CAUSE: u32 = 0xC0FFEE;
pub const ECONNRESET: i32 = 104;
impl How {
    fn error(self) -> std::io::Error {
        match self {
            How::Custom(k) => std::io::Error::new(k, Cause(CAUSE)),
            How::Simple(k) => k.into(),
            How::Os(n) => std::io::Error::from_raw_os_error(n),
            _ => ErrorKind::Interrupted.into(),
        }
    }
    fn same(self, e: &std::io::Error) -> bool {
        match self {
            How::Custom(k) => e.kind() == k && e.get_ref().and_then(|x| x.downcast_ref::<Cause>()).map(|x| x.0) == Some(CAUSE),
            How::Simple(k) => e.kind() == k,
            How::Os(n) => e.raw_os_error() == Some(n),
            _ => false,
        }
    }
    fn eof(self) -> bool { matches!(self, How::Custom(ErrorKind::UnexpectedEof) | How::Simple(ErrorKind::UnexpectedEof)) }
}
fn some_fault(p: usize) -> How {
    match p % 3 { 0 => How::Custom(ErrorKind::WouldBlock), 1 => How::Simple(ErrorKind::TimedOut), _ => How::Os(ECONNRESET) }
}
/// Checks that `e` is the failure of the stream.
fn surfaces(how: How, e: Error, msg: &'static str) {
    check(e.is_eof() == how.eof(), "an error of the stream is mistaken for the end of input");
    let e: std::io::Error = e.into();
    check(how.same(&e), msg);
}
/// A stream of `b` that fails once when `at` bytes have been taken.
pub struct Faulty<'b> { pub b: &'b [u8], pub pos: usize, pub at: usize, pub step: usize, pub how: How, pub hit: usize }
impl<'b> std::io::Read for &mut Faulty<'b> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.pos == self.at && self.hit == 0 && self.how != How::Nothing {
            self.hit += 1;
            return Err(self.how.error());
        }
        let mut n = out.len().min(self.b.len() - self.pos).min(self.step);
        if self.hit == 0 && self.how != How::Nothing { n = n.min(self.at - self.pos) }
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Any position in `n` bytes, or one of those that matter when there are many.
fn spot(n: usize) -> usize {
    if n <= 100 { return choose(n + 1) }
    let all = [0, 4, 5, 130, n / 2, 4096, 8191, 8192, 8193, 8196, n - 1, n];
    let mut v = vec![];
    for x in all { if x <= n && !v.contains(&x) { v.push(x) } }
    v[choose(v.len())]
}
/// The stream an encoding is read from fails after any number of bytes.
pub fn reads<F: Fam>() {
    expect("done");
    let e = endian();
    let v = F::gen();
    let want = canon(&v);
    let b = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a valid value cannot be written"); return } };
    if !F::ORDERED { observe(b.len() as u64) } else { observe_bytes(&b) }
    if F::STREAM {
        let at = spot(b.len());
        let buffered = choose(2) == 1;
        let how = if choose(2) == 0 { some_fault(at) } else { How::Interrupted };
        let mut s = Faulty { b: &b, pos: 0, at, step: if at % 2 != 0 { usize::MAX } else if b.len() > 300 { 1000 } else { 3 }, how, hit: 0 };
        let r = if buffered { F::T::read_from_stream_buffered_with_ctx(e, &mut s) } else { F::T::read_from_stream_unbuffered_with_ctx(e, &mut s) };
        if how == How::Interrupted || s.hit == 0 {
            check(s.hit != 0 || at == b.len(), "part of the encoding is not taken from the stream");
            match r {
                Ok(v) => check(eq(&canon(&v), &want), "an interruption changes the value"),
                Err(_) => check(false, "an interruption is not retried"),
            }
        } else {
            match r {
                Ok(_) => check(false, "a failure of the stream is swallowed"),
                Err(x) => surfaces(how, x, "the failure of the stream is reported as another error"),
            }
        }
    }
    cover("done");
}
/// A sink that fails once when `at` bytes have been accepted.
pub struct Full { pub b: Vec<u8>, pub at: usize, pub step: usize, pub how: How, pub hit: usize }
impl std::io::Write for &mut Full {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        if d.is_empty() { return Ok(0) }
        if self.b.len() == self.at && (self.hit == 0 || self.how == How::Nothing) {
            self.hit += 1;
            return if self.how == How::Nothing { Ok(0) } else { Err(self.how.error()) };
        }
        let mut n = d.len().min(self.step);
        if self.hit == 0 { n = n.min(self.at - self.b.len()) }
        self.b.extend_from_slice(&d[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// The stream a value is written to fails, or is full, after any number of bytes.
pub fn writes<F: Fam>() {
    expect("done");
    let e = endian();
    let v = F::gen();
    let b = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a valid value cannot be written"); return } };
    if !F::ORDERED { observe(b.len() as u64) } else { observe_bytes(&b) }
    let at = spot(b.len());
    let how = match choose(3) { 0 => some_fault(at), 1 => How::Interrupted, _ => How::Nothing };
    let mut s = Full { b: vec![], at, step: if at % 2 != 0 { usize::MAX } else if b.len() > 300 { 1000 } else { 3 }, how, hit: 0 };
    let r = v.write_to_stream_with_ctx(e, &mut s);
    if how == How::Interrupted || at == b.len() {
        check(r.is_ok(), "an interruption is not retried, or a write fails for no reason");
        check(eq(&s.b, &b), "the bytes written are not the encoding");
    } else {
        check(eq(&s.b, &b[..at]), "the bytes written before the failure are not those of the encoding");
        match r {
            Ok(_) => check(false, "a failure of the stream is swallowed"),
            Err(x) => surfaces(if how == How::Nothing { How::Simple(ErrorKind::WriteZero) } else { how }, x, "the failure of the stream is reported as another error"),
        }
    }
    cover("done");
}

// ---------------------------------------------------------------- scripts
pub struct Cx<'s> { ops: &'s [(Op, usize)], data: &'s [u8], hit: &'s std::cell::Cell<usize>, how: How }
impl<'s> Context for Cx<'s> {
    type Error = Error;
    fn endianness(&self) -> Endianness { Endianness::LittleEndian }
}
struct Shared<'s> { b: &'s [u8], pos: usize, calls: usize, at: usize, step: usize, how: How, hit: &'s std::cell::Cell<usize> }
impl<'b> std::io::Read for Shared<'b> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.at { self.hit.set(self.hit.get() + 1); return Err(self.how.error()) }
        let n = out.len().min(self.b.len() - self.pos).min(self.step);
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Run;
impl<'a, 's> Readable<'a, Cx<'s>> for Run {
    fn read_from<R: Reader<'a, Cx<'s>>>(r: &mut R) -> Result<Self, Error> {
        let (ops, data, hit, how) = (r.context().ops, r.context().data, r.context().hit, r.context().how);
        let mut pos = 0;
        for (op, size) in ops.iter().copied() {
            let mut out = vec![0xEEu8; size];
            let before = hit.get();
            let res = match op {
                Op::Read => r.read_bytes(&mut out),
                Op::Peek => r.peek_bytes(&mut out),
                Op::Skip => r.skip_bytes(size),
            };
            if hit.get() != before {
                cover("fault");
                match res {
                    Ok(()) => check(false, "a failure of the stream is swallowed"),
                    Err(e) => surfaces(how, e, "the failure of the stream is reported as another error"),
                }
                if op == Op::Peek { continue } // nothing may be lost
                return Ok(Run);
            }
            if size > data.len() - pos {
                match res {
                    Ok(()) => check(false, "an operation succeeds beyond the end of the stream"),
                    Err(e) => {
                        check(e.is_eof(), "the end of the stream is not reported as such");
                        check(std::io::Error::from(e).kind() == ErrorKind::UnexpectedEof, "the end of the stream is another kind of I/O error");
                    }
                }
                if op == Op::Peek { continue }
                return Ok(Run);
            }
            check(res.is_ok(), "an operation fails although the stream does not");
            if op != Op::Skip { check(eq(&out, &data[pos..pos + size]), "the bytes delivered are not those of the stream") }
            if op != Op::Peek { pos += size }
        }
        cover("all");
        Ok(Run)
    }
}
fn script(n: usize, data: &[u8], sizes: &[usize], steps: &[usize], calls: usize, buffered: bool) {
    expect("fault");
    expect("all");
    let kinds = [Op::Read, Op::Peek, Op::Skip];
    let ops: Vec<(Op, usize)> = (0..n).map(|_| (kinds[choose(3)], sizes[choose(sizes.len())])).collect();
    let hit = std::cell::Cell::new(0);
    let at = choose(calls);
    let how = some_fault(at);
    let s = Shared { b: data, pos: 0, calls: 0, at, step: steps[choose(steps.len())], how, hit: &hit };
    let ctx = Cx { ops: &ops, data, hit: &hit, how };
    let r = if buffered { Run::read_from_stream_buffered_with_ctx(ctx, s) } else { Run::read_from_stream_unbuffered_with_ctx(ctx, s) };
    check(r.is_ok(), "the script fails");
}
fn coded(n: usize) -> Vec<u8> { (0..n).map(|i| (i ^ (i >> 8)) as u8).collect() }

// ---------------------------------------------------------------- errors of speedy's own
fn reported(e: Error, eof: bool, text: &str) {
    check(e.is_eof() == eof, "an error is wrongly said (not) to be the end of input");
    check(std::error::Error::source(&e).is_none(), "an error has a cause that it does not have");
    let s = e.to_string();
    check(eq(s.as_bytes(), text.as_bytes()), "an error describes itself wrongly");
    let x: std::io::Error = e.into();
    check(x.kind() == if eof { ErrorKind::UnexpectedEof } else { ErrorKind::InvalidData }, "an error becomes another kind of I/O error");
    check(x.to_string() == text, "the I/O error says something else");
    cover("reported");
}
fn rejected<T>(r: Result<T, Error>, eof: bool, text: &str) {
    expect("reported");
    match r { Ok(_) => check(false, "something is accepted that is not valid"), Err(e) => reported(e, eof, text) }
}
#[derive(Readable)] #[speedy(tag_type = u8)] pub enum En { #[speedy(tag = 3)] A, #[speedy(tag = 7)] B(u8) }
#[derive(Readable, Writable)] pub struct Pf { #[speedy(constant_prefix = "ab")] x: u8 }
#[derive(Readable, Writable)] pub struct Ln { n: u8, #[speedy(length = n)] v: Vec<u8> }
#[derive(Readable, Writable)] pub struct L8 { #[speedy(length_type = u8)] v: Vec<u8> }
#[derive(Readable, Writable)] pub struct L7 { #[speedy(length_type = u7)] v: Vec<u8> }
fn le() -> Endianness { Endianness::LittleEndian }
fn any_source<T: for<'a> Readable<'a, Endianness>>(b: &[u8]) -> Result<T, Error> { crate::src::read::<_, T>(choose(crate::src::SOURCES), le(), b).0 }
const EXTRA: usize = if cfg!(feature = "thorough") { 1 } else { 0 };
crate::entries! {
    unbuffered { let d = bytes::<6>(); script(3 + EXTRA, &d[..6 - 3 * choose(2)], &[0, 1, 2, 5], &[1, 2, 100], 6, false) }
    buffered { let d = bytes::<6>(); script(3 + EXTRA, &d[..6 - 3 * choose(2)], &[0, 1, 2, 5], &[1, 2, 100], 6, true) }
    unbuffered_long { script(3 + EXTRA, &coded(5000), &[1, 9, 1024, 2500], &[1000, 100000], 7, false) }
    buffered_long { script(3 + EXTRA, &coded(17000), &[1, 1024, 8191, 8192], &[4096, 100000], 5, true) }
    // errors
    eof {
        expect("end");
        let b = bytes::<3>();
        let (r, _) = crate::src::read::<_, (u8, u32)>(1 + choose(crate::src::SOURCES - 1), le(), &b[..choose(4)]);
        match r {
            Ok(_) => check(false, "a value is read beyond the end"),
            Err(e) => {
                // a buffer shorter than the minimum is reported as such
                let short = e.to_string().starts_with("input buffer is too small; expected at least 5 bytes, got ");
                check(e.is_eof() != short, "the end of input is not reported as such");
                check(std::io::Error::from(e).kind() == if short { ErrorKind::InvalidData } else { ErrorKind::UnexpectedEof }, "the end of input is another kind of I/O error");
                if !short { cover("end") }
            }
        }
    }
    eof_vec { rejected(Vec::<u8>::read_from_buffer_with_ctx(le(), &[5, 0, 0, 0, 1, 2]), true, "unexpected end of input") }
    invalid_char { let x = any_u32(); assume(char::from_u32(x).is_none()); rejected(any_source::<char>(&x.to_le_bytes()), false, "out of range char") }
    invalid_variant { let x = any_u8(); assume(x != 3 && x != 7); rejected(any_source::<En>(&[x, 1, 2]), false, "invalid enum variant") }
    invalid_utf8 { let x = any_u8(); assume(x >= 0x80); rejected(any_source::<String>(&[1, 0, 0, 0, x]), false, "encountered invalid utf-8") }
    zero { rejected(any_source::<std::num::NonZeroU16>(&[0, 0]), false, "a field which is supposed to be non-zero is zero") }
    prefix { let x = bytes::<2>(); assume(x != *b"ab"); rejected(any_source::<Pf>(&[x[0], x[1], 1]), false, "expected a predefined 2 bytes(s) long constant") }
    bad_length { let n = any_u8(); assume(n != 2); rejected(Ln { n, v: vec![1, 2] }.write_to_vec_with_ctx(le()), false, "the length of 'v' is not the same as its 'length' attribute") }
    long_u8 { rejected(L8 { v: vec![1; 256] }.write_to_vec_with_ctx(le()), false, "out of range length") }
    long_u7 { rejected(L7 { v: vec![1; 128 + choose(2) * 128] }.write_to_vec_with_ctx(le()), false, "out of range length") }
    long_u7_read { let n = any_u8(); assume(n >= 128); let mut b = vec![0; 300]; b[0] = n; rejected(any_source::<L7>(&b), false, "out of range length") }
    unsized_ { rejected(<&[u8]>::read_from_stream_unbuffered_with_ctx(le(), &[0u8, 0, 0, 0][..]), false, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it") }
    before_epoch {
        let t = std::time::SystemTime::UNIX_EPOCH.checked_sub(std::time::Duration::from_secs(1)).unwrap();
        rejected(t.write_to_vec_with_ctx(le()), false, "encountered invalid system time object")
    }
    output_small {
        let mut b = [0u8; 8];
        let n = choose(7);
        match (1u32, 2u16, 3u8).write_to_buffer_with_ctx(le(), &mut b[..n]) {
            Ok(()) => check(false, "a value is written to a buffer that is too small"),
            Err(e) => { let t = format!("output buffer is too small; expected at least 7 bytes, got {}", n); rejected::<()>(Err(e), false, &t) }
        }
    }
    custom {
        expect("done");
        let e = Error::custom(format_args!("why {}", 12));
        check(!e.is_eof(), "a custom error is the end of input");
        check(e.to_string() == "why 12", "a custom error says something else");
        check(std::error::Error::source(&e).is_some(), "a custom error has no cause");
        let x: std::io::Error = e.into();
        check(x.kind() == ErrorKind::Other, "a custom error has another kind");
        check(x.to_string() == "why 12", "a custom error says something else as an I/O error");
        cover("done");
    }
    kinds {
        expect("done");
        let all = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::OutOfMemory];
        let k = all[choose(all.len())];
        let how = if choose(2) == 0 { How::Simple(k) } else { How::Custom(k) };
        let b = bytes::<8>();
        let mut s = Faulty { b: &b, pos: 0, at: choose(8), step: 100, how, hit: 0 };
        let r = if choose(2) == 0 { u64::read_from_stream_unbuffered_with_ctx(le(), &mut s) } else { u64::read_from_stream_buffered_with_ctx(le(), &mut s) };
        match r { Ok(_) => check(false, "a failure of the stream is swallowed"), Err(x) => surfaces(how, x, "the failure of the stream is reported as another error") }
        let mut s = Full { b: vec![], at: choose(8), step: 100, how, hit: 0 };
        match u64::from_le_bytes(b).write_to_stream_with_ctx(le(), &mut s) { Ok(_) => check(false, "a failure of the stream is swallowed"), Err(x) => surfaces(how, x, "the failure of the stream is reported as another error") }
        cover("done");
    }
}
