//! P09: variable-length integers.
use crate::props::{endian, is_be};
use crate::src::*;
use crate::sx::*;
use crate::val::Out;
use speedy::private::VarInt64;
use speedy::{Endianness, IsEof, Readable, Reader, Writable, Writer};

/// the number of bytes documented for `v`
fn length(v: u64) -> usize {
    let mut n = 1;
    let mut limit: u64 = 1 << 7;
    while n < 9 {
        if v < limit { return n }
        n += 1;
        limit = limit.wrapping_shl(7);
    }
    9
}
/// the documented layout, written down separately for each length
fn layout(v: u64, n: usize) -> Vec<u8> {
    let b = v.to_le_bytes();
    let mut r = Vec::with_capacity(9);
    r.push(match n { 1 => b[0], 2 => 0x80 | b[1], 3 => 0xc0 | b[2], 4 => 0xe0 | b[3], 5 => 0xf0 | b[4], 6 => 0xf8 | b[5], 7 => 0xfc | b[6], 8 => 0xfe | b[7], _ => 0xff });
    let mut i = 0;
    while i + 1 < n { r.push(b[i]); i += 1 }
    r
}
/// what the documentation says about arbitrary bytes: how many are used, and their value
fn decode(b: &[u8]) -> Option<(usize, u64)> {
    if b.is_empty() { return None }
    let f = b[0];
    let (n, top) = if f < 0x80 { (1, f) } else if f < 0xc0 { (2, f & 0x3f) } else if f < 0xe0 { (3, f & 0x1f) } else if f < 0xf0 { (4, f & 0xf) }
        else if f < 0xf8 { (5, f & 7) } else if f < 0xfc { (6, f & 3) } else if f < 0xfe { (7, f & 1) } else if f < 0xff { (8, 0) } else { (9, 0) };
    if b.len() < n { return None }
    let mut v = if n == 9 { 0 } else { (top as u64) << (8 * (n as u64 - 1)) };
    let mut i = 1;
    while i < n { v |= (b[i] as u64) << (8 * (i as u64 - 1)); i += 1 }
    Some((n, v))
}
/// written and read with the methods of writers and readers
struct Meth(u64);
impl Writable<Endianness> for Meth {
    fn write_to<W: ?Sized + Writer<Endianness>>(&self, w: &mut W) -> Result<(), speedy::Error> { w.write_u64_varint(self.0) }
}
impl<'a> Readable<'a, Endianness> for Meth {
    fn read_from<R: Reader<'a, Endianness>>(r: &mut R) -> Result<Self, speedy::Error> { Ok(Meth(r.read_u64_varint()?)) }
}
/// a length in front of data
struct Len(usize);
impl Writable<Endianness> for Len {
    fn write_to<W: ?Sized + Writer<Endianness>>(&self, w: &mut W) -> Result<(), speedy::Error> { speedy::private::write_length_u64_varint(self.0, w) }
}
impl<'a> Readable<'a, Endianness> for Len {
    fn read_from<R: Reader<'a, Endianness>>(r: &mut R) -> Result<Self, speedy::Error> { Ok(Len(speedy::private::read_length_u64_varint(r)?)) }
}
fn write_it(kind: usize, sink: usize, e: Endianness, v: u64) -> Result<Vec<u8>, speedy::Error> {
    match kind { 0 => write(sink, e, &VarInt64::from(v)), 1 => write(sink, e, &Meth(v)), _ => write(sink, e, &Len(v as usize)) }
}
fn read_it(kind: usize, source: usize, e: Endianness, b: &[u8]) -> (Result<u64, speedy::Error>, Option<usize>) {
    match kind {
        0 => { let (r, n) = read::<_, VarInt64>(source, e, b); (r.map(|x| x.into()), n) }
        1 => { let (r, n) = read::<_, Meth>(source, e, b); (r.map(|x| x.0), n) }
        _ => { let (r, n) = read::<_, Len>(source, e, b); (r.map(|x| x.0 as u64), n) }
    }
}
fn writes(kind: usize) {
    expect("done");
    let e = endian();
    let v = any_u64();
    let n = length(v);
    let want = layout(v, n);
    let mut o = Out::new(is_be(e));
    o.varint(v);
    check(eq(&o.b, &want), "the two reference encoders disagree");
    observe_bytes(&want);
    for s in 0..SINKS {
        match write_it(kind, s, e, v) {
            Ok(b) => check(eq(&b, &want), "the encoding differs from the documented layout"),
            Err(_) => check(false, "an integer cannot be written"),
        }
    }
    let needed = match kind { 0 => Writable::<Endianness>::bytes_needed(&VarInt64::from(v)), 1 => Meth(v).bytes_needed(), _ => Len(v as usize).bytes_needed() };
    match needed { Ok(x) => check(x == n, "the predicted length is wrong"), Err(_) => check(false, "the length cannot be predicted") }
    let mut short = vec![0u8; n - 1];
    check(VarInt64::from(v).write_to_buffer_with_ctx(e, &mut short).is_err(), "written to a buffer that is too small");
    for s in 0..SOURCES {
        let (r, used) = read_it(kind, s, e, &want);
        match r { Ok(x) => check(x == v, "the integer reads back as another one"), Err(_) => check(false, "an encoding is rejected") }
        if let Some(u) = used { check(u == n, "the length consumed is wrong") }
    }
    cover("done");
}
fn reads(kind: usize, max: usize) {
    expect("whole");
    expect("short");
    let e = endian();
    let b = byte_vec(choose(max + 1));
    let want = decode(&b);
    let s = choose(SOURCES);
    let (r, used) = read_it(kind, s, e, &b);
    match (r, want) {
        (Ok(x), Some((n, v))) => {
            cover("whole");
            observe(x);
            check(x == v, "the value differs from the documented one");
            if let Some(u) = used { check(u == n, "the length consumed is wrong") }
        }
        (Err(_), Some(_)) => check(false, "rejected although all bytes are there"),
        (Ok(_), None) => check(false, "a truncated integer is accepted"),
        (Err(x), None) => {
            cover("short");
            check(x.is_eof() || b.is_empty(), "a truncated integer is not reported as the end of input");
        }
    }
}
/// skip some bytes, peek twice, then read, then read all that follows
struct Peeks { lead: usize, rest: usize, a: Result<u64, bool>, b: Result<u64, bool>, first: Result<u8, bool>, c: Result<u64, bool>, tail: Vec<u8>, all: bool }
impl<'a> Readable<'a, Script> for Peeks {
    fn read_from<R: Reader<'a, Script>>(r: &mut R) -> Result<Self, speedy::Error> {
        let Script(lead, rest) = *r.context();
        let mut l = vec![0u8; lead];
        r.read_bytes(&mut l)?;
        let ok = |x: Result<u64, speedy::Error>| x.map_err(|e| e.is_eof());
        let a = ok(r.peek_u64_varint());
        let b = ok(r.peek_u64_varint());
        let first = r.peek_u8().map_err(|e| e.is_eof());
        let mut c = Err(true);
        let mut tail = vec![];
        if a.is_ok() {
            c = ok(r.read_u64_varint());
        }
        let used = match c { Ok(_) => rest.wrapping_add(0), Err(_) => usize::MAX };
        let mut all = false;
        if used != usize::MAX || a.is_err() {
            // everything else, byte by byte
            loop { match r.read_u8() { Ok(x) => tail.push(x), Err(_) => { all = true; break } } }
        }
        Ok(Peeks { lead, rest, a, b, first, c, tail, all })
    }
}
#[derive(Copy, Clone)]
struct Script(usize, usize);
impl speedy::Context for Script {
    type Error = speedy::Error;
    fn endianness(&self) -> Endianness { Endianness::LittleEndian }
}
fn peeks(lead: usize, max: usize) {
    expect("whole");
    expect("short");
    let b = byte_vec(lead + choose(max + 1));
    let s = choose(SOURCES);
    let (r, _) = read::<_, Peeks>(s, Script(lead, 0), &b);
    let rest = &b[lead..];
    match r {
        Err(_) => check(false, "reading the bytes in front fails"),
        Ok(p) => {
            check(p.first.is_ok() == !rest.is_empty(), "peeking a byte succeeds or fails wrongly");
            if let Ok(x) = p.first { check(x == rest[0], "peeking a byte after an integer gives another byte") }
            match decode(rest) {
                None => {
                    cover("short");
                    check(p.a.is_err() && p.b.is_err(), "a truncated integer can be peeked");
                    check(p.a != Err(false), "peeking a truncated integer is not reported as the end of input");
                    check(eq(&p.tail, rest), "a failed peek takes or loses bytes");
                }
                Some((n, v)) => {
                    cover("whole");
                    observe(v);
                    check(p.a == Ok(v), "peeking gives another value");
                    check(p.b == Ok(v), "peeking again gives another value");
                    check(p.c == Ok(v), "reading after peeking gives another value");
                    check(eq(&p.tail, &rest[n..]), "the bytes after the integer are not those that follow");
                }
            }
        }
    }
}
const M: usize = if cfg!(feature = "thorough") { 11 } else { 10 };
crate::entries! {
    write_varint { writes(0) }
    write_method { writes(1) }
    write_length { writes(2) }
    read_varint { reads(0, M) }
    read_method { reads(1, M) }
    read_length { reads(2, M) }
    peek { peeks(0, M) }
    peek_later { peeks(1, M) }
    peek_later3 { peeks(3, M) }
    unsigned {
        expect("done");
        let x = any_u64();
        check(u64::from(VarInt64::from(x)) == x, "u64 is not converted exactly");
        check(u64::from(VarInt64::from(x as u32)) == x as u32 as u64, "u32 is not converted exactly");
        check(u64::from(VarInt64::from(x as u16)) == x as u16 as u64, "u16 is not converted exactly");
        check(u64::from(VarInt64::from(x as u8)) == x as u8 as u64, "u8 is not converted exactly");
        cover("done");
    }
    signed {
        expect("done");
        let x = any_u64() as i64;
        // the documented zigzag transformation: 0, -1, 1, -2, 2 ...
        let zig = if x >= 0 { (x as u64).wrapping_mul(2) } else { (!(x as u64)).wrapping_mul(2).wrapping_add(1) };
        check(u64::from(VarInt64::from(x)) == zig, "i64 is not transformed as documented");
        check(i64::from(VarInt64::from(x)) == x, "i64 is not converted back");
        cover("done");
    }
    signed_small {
        expect("done");
        let x = any_u32();
        let zig = |x: i64| if x >= 0 { (x as u64) * 2 } else { (!(x as u64)) * 2 + 1 };
        let (a, b, c) = (x as i32, x as i16, x as i8);
        check(u64::from(VarInt64::from(a)) == zig(a as i64), "i32 is not transformed as documented");
        check(u64::from(VarInt64::from(b)) == zig(b as i64), "i16 is not transformed as documented");
        check(u64::from(VarInt64::from(c)) == zig(c as i64), "i8 is not transformed as documented");
        check(i64::from(VarInt64::from(a)) == a as i64, "i32 is not converted back");
        check(i64::from(VarInt64::from(b)) == b as i64, "i16 is not converted back");
        check(i64::from(VarInt64::from(c)) == c as i64, "i8 is not converted back");
        cover("done");
    }
    /// every unsigned value is the image of exactly one signed value
    signed_onto {
        expect("done");
        let x = any_u64();
        let i: i64 = VarInt64::from(x).into();
        check(u64::from(VarInt64::from(i)) == x, "the signed conversions are not inverse to each other");
        cover("done");
    }
    /// signed values through a buffer
    signed_buffer {
        expect("done");
        let x = any_u64() as i64;
        let b = VarInt64::from(x).write_to_vec_with_ctx(endian());
        match b {
            Ok(b) => match VarInt64::read_from_buffer_with_ctx(endian(), &b) {
                Ok(v) => { check(i64::from(v) == x, "a signed integer reads back as another one"); cover("done") }
                Err(_) => check(false, "an encoding is rejected"),
            },
            Err(_) => check(false, "an integer cannot be written"),
        }
    }
}
