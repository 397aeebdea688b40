//! P19: reading from and writing to files, on a model of the operating system: this program defines the functions of the C
//! library that the standard library and speedy call for files, so that the same model runs symbolically and natively, and
//! no real file is touched.
use crate::props::endian;
use crate::sx::*;
use crate::val::*;
use speedy::{Endianness, IsEof, Readable, Writable};
use std::borrow::Cow;
use std::collections::*;
use std::path::{Path, PathBuf};

#[derive(Copy, Clone, PartialEq)]
enum Op { Open, Stat, Map, Advise, Read, Write, None }
struct Os {
    on: bool,
    path: Vec<u8>,
    /// the file, if it exists
    data: Option<Vec<u8>>,
    fd: Option<(usize, i32)>,
    maps: Vec<(usize, usize)>,
    /// at most so many bytes are written or read by one call
    step: usize,
    /// what fails: the `nth` call of a kind, with this error (0: a write that writes nothing)
    op: Op, nth: usize, errno: i32,
    seen: usize,
    fired: bool,
    calls: usize,
}
static mut OS: Os = Os { on: false, path: Vec::new(), data: None, fd: None, maps: Vec::new(), step: usize::MAX, op: Op::None, nth: 0, errno: 0, seen: 0, fired: false, calls: 0 };
static mut ERRNO: i32 = 0;
#[allow(static_mut_refs)]
fn os() -> &'static mut Os { unsafe { &mut OS } }
fn set(e: i32) -> isize { unsafe { ERRNO = e } -1 }
const FD: i32 = 1000;
const O_ACC: i32 = 3;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;

/// What is not for the model: a system call in the native program, and nothing that happens in the analysed one.
#[cfg(feature = "native")]
unsafe fn other(n: isize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 { set(-r as i32) } else { r }
}
#[cfg(not(feature = "native"))]
unsafe fn other(_: isize, _: usize, _: usize, _: usize, _: usize, _: usize, _: usize) -> isize { check(false, "a system call on something other than the file"); set(9) }

fn fails(op: Op) -> bool {
    let o = os();
    o.calls += 1;
    if o.op != op || o.fired { return false }
    o.seen += 1;
    if o.seen <= o.nth { return false }
    o.fired = true;
    unsafe { ERRNO = o.errno }
    true
}
unsafe fn name(p: *const u8) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while *p.add(i) != 0 { v.push(*p.add(i)); i += 1 }
    v
}
#[no_mangle] pub unsafe extern "C" fn __errno_location() -> *mut i32 { std::ptr::addr_of_mut!(ERRNO) }
unsafe fn open(p: *const u8, flags: i32, mode: u32) -> i32 {
    if !os().on { return other(2, p as usize, flags as usize, mode as usize, 0, 0, 0) as i32 }
    if fails(Op::Open) { return -1 }
    let o = os();
    check(name(p) == o.path, "another file was opened");
    check(o.fd.is_none(), "the file was opened twice");
    if o.data.is_none() { if flags & O_CREAT == 0 { return set(2) as i32 } o.data = Some(Vec::new()) } else if flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL { return set(17) as i32 }
    if flags & O_TRUNC != 0 { o.data = Some(Vec::new()) }
    o.fd = Some((0, flags));
    FD
}
#[no_mangle] pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 { open(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd != FD { return other(3, fd as usize, 0, 0, 0, 0, 0) as i32 }
    check(os().fd.is_some(), "the file was closed twice");
    os().fd = None;
    0
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32) -> i32 {
    if fd != FD { return other(72, fd as usize, cmd as usize, 0, 0, 0, 0) as i32 }
    if os().fd.is_none() { return set(9) as i32 }
    0
}
#[no_mangle] pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if fd != FD { return other(1, fd as usize, p as usize, n, 0, 0, 0) }
    if fails(Op::Write) { return if os().errno == 0 { 0 } else { -1 } }
    let o = os();
    let (pos, flags) = match o.fd { Some(x) => x, None => return set(9) };
    if flags & O_ACC == 0 { return set(9) }
    let n = n.min(o.step);
    let d = match &mut o.data { Some(d) => d, None => return set(5) };
    let pos = if flags & O_APPEND != 0 { d.len() } else { pos };
    let b = std::slice::from_raw_parts(p, n);
    let k = n.min(d.len() - pos);
    d[pos..pos + k].copy_from_slice(&b[..k]);
    d.extend_from_slice(&b[k..]);
    o.fd = Some((pos + n, flags));
    n as isize
}
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if fd != FD { return other(0, fd as usize, p as usize, n, 0, 0, 0) }
    if fails(Op::Read) { return -1 }
    let o = os();
    let (pos, flags) = match o.fd { Some(x) => x, None => return set(9) };
    if flags & O_ACC == 1 { return set(9) }
    let d = match &o.data { Some(d) => d, None => return set(5) };
    let n = n.min(o.step).min(d.len() - pos);
    std::slice::from_raw_parts_mut(p, n).copy_from_slice(&d[pos..pos + n]);
    o.fd = Some((pos + n, flags));
    n as isize
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if fd != FD { return other(8, fd as usize, off as usize, whence as usize, 0, 0, 0) as i64 }
    let o = os();
    let (pos, flags) = match o.fd { Some(x) => x, None => return set(9) as i64 };
    let n = o.data.as_ref().map(|x| x.len()).unwrap_or(0);
    let to = match whence { 0 => off, 1 => pos as i64 + off, _ => n as i64 + off };
    if to < 0 || to > n as i64 { return set(22) as i64 }
    o.fd = Some((to as usize, flags));
    to
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: i32) -> i32 { if fd != FD { return other(74, fd as usize, 0, 0, 0, 0, 0) as i32 } 0 }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { if fd != FD { return other(75, fd as usize, 0, 0, 0, 0, 0) as i32 } 0 }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if fd != FD { return other(77, fd as usize, n as usize, 0, 0, 0, 0) as i32 }
    if let Some(d) = &mut os().data { d.resize(n as usize, 0) }
    0
}
#[no_mangle] pub unsafe extern "C" fn statx(fd: i32, p: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    if buf.is_null() { return set(14) as i32 }
    let by_path = fd == -100 && os().on;
    if fd != FD && !by_path { return other(332, fd as usize, p as usize, flags as usize, mask as usize, buf as usize, 0) as i32 }
    if fails(Op::Stat) { return -1 }
    if by_path { check(name(p) == os().path, "another file was looked at") } else if os().fd.is_none() { return set(9) as i32 }
    let n = match &os().data { Some(d) => d.len() as u64, None => return set(2) as i32 };
    std::ptr::write_bytes(buf, 0, 256);
    (buf as *mut u32).write_unaligned(0x7ff);
    (buf.add(28) as *mut u16).write_unaligned(0o100644);
    (buf.add(40) as *mut u64).write_unaligned(n);
    0
}
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, buf: *mut u8) -> i32 {
    if fd != FD { return other(5, fd as usize, buf as usize, 0, 0, 0, 0) as i32 }
    if fails(Op::Stat) { return -1 }
    if os().fd.is_none() { return set(9) as i32 }
    let n = match &os().data { Some(d) => d.len() as u64, None => return set(2) as i32 };
    std::ptr::write_bytes(buf, 0, 144);
    (buf.add(24) as *mut u32).write_unaligned(0o100644);
    (buf.add(48) as *mut u64).write_unaligned(n);
    0
}
fn layout(n: usize) -> std::alloc::Layout { std::alloc::Layout::from_size_align(n, 4096).unwrap() }
#[no_mangle] pub unsafe extern "C" fn mmap(addr: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8 {
    if fd != FD { return other(9, addr as usize, n, prot as usize, flags as usize, fd as usize, off as usize) as *mut u8 }
    if fails(Op::Map) { return !0usize as *mut u8 }
    let o = os();
    let d = match (&o.data, o.fd) { (Some(d), Some(_)) => d, _ => { set(9); return !0usize as *mut u8 } };
    if n == 0 { set(22); return !0usize as *mut u8 }
    // (a mapping may be longer than the file; what is beyond its end must not be looked at, so there is nothing)
    let m = n.min(d.len());
    let p = std::alloc::alloc(layout(m));
    std::ptr::copy_nonoverlapping(d.as_ptr(), p, m);
    o.maps.push((p as usize, n));
    p
}
#[no_mangle] pub unsafe extern "C" fn munmap(p: *mut u8, n: usize) -> i32 {
    let o = os();
    match o.maps.iter().position(|x| x.0 == p as usize) {
        Some(i) => {
            let (_, m) = o.maps.swap_remove(i);
            check(n == m, "another length is unmapped than was mapped");
            std::alloc::dealloc(p, layout(m.min(o.data.as_ref().map(|d| d.len()).unwrap_or(0))));
            0
        }
        None => other(11, p as usize, n, 0, 0, 0, 0) as i32,
    }
}
#[no_mangle] pub unsafe extern "C" fn madvise(p: *mut u8, n: usize, advice: i32) -> i32 {
    if !os().on { return other(28, p as usize, n, advice as usize, 0, 0, 0) as i32 }
    if fails(Op::Advise) { return -1 }
    check(os().maps.iter().any(|x| x.0 == p as usize && n <= x.1), "advice about memory that is not mapped");
    0
}

const EINTR: i32 = 4;
/// An error number: any that Linux has.
fn errno() -> i32 { let e = any_u8(); assume(e > 0 && e < 134); e as i32 }
fn start(path: &str, data: Option<Vec<u8>>, step: usize, op: Op, nth: usize, errno: i32) {
    *os() = Os { on: true, path: path.as_bytes().to_vec(), data, fd: None, maps: Vec::new(), step, op, nth, errno, seen: 0, fired: false, calls: 0 };
}
fn stop() {
    os().on = false;
    check(os().fd.is_none(), "the file is still open");
    check(os().maps.is_empty(), "the file is still mapped");
}
fn same_error(e: speedy::Error) {
    check(!e.is_eof(), "a failed operation counts as the end of input");
    let e: std::io::Error = e.into();
    check(e.raw_os_error() == Some(os().errno), "a failed operation is reported as another error");
}
const PATH: &str = "/dir/file";
fn wrote(r: Result<(), speedy::Error>, want: &[u8]) {
    stop();
    let o = os();
    match r {
        Ok(()) => {
            check(!o.fired || (o.errno == EINTR), "a failed write counts as a success");
            match &o.data { Some(d) => { observe_bytes(d); check(eq(d, want), "the file does not have the encoding of the value") } None => check(false, "there is no file") }
            cover(if o.fired { "interrupted" } else { "written" });
        }
        Err(e) => {
            check(o.fired, "writing fails, although every operation worked");
            check(o.errno != EINTR || !matches!(o.op, Op::Open | Op::Write), "an interrupted operation is not tried again");
            if o.errno != 0 { same_error(e) } else { check(!e.is_eof(), "a failed operation counts as the end of input") }
            cover("write error");
        }
    }
}
/// What the file had before.
fn before(n: usize) -> Option<Vec<u8>> { match choose(3) { 0 => None, 1 => Some(byte_vec(1)), _ => Some(byte_vec(n + 2)) } }
fn put<T: Val + Writable<Endianness>>() {
    expect("written"); expect("write error"); expect("interrupted");
    let e = endian();
    let v = T::gen();
    let want = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a value cannot be written"); return } };
    let old = before(want.len());
    match choose(4) {
        0 => start(PATH, old, usize::MAX, Op::None, 0, 0),
        1 => { let k = choose(2) + 1; start(PATH, old, k, Op::None, 0, 0) }
        2 => { let x = errno(); start(PATH, old, usize::MAX, Op::Open, 0, x) }
        _ => {
            let step = [usize::MAX, 1][choose(2)];
            let nth = if step == 1 { choose(want.len().min(if cfg!(feature = "thorough") { 16 } else { 4 })) } else { 0 };
            let x = if choose(2) == 0 { 0 } else { errno() };
            start(PATH, old, step, Op::Write, nth, x)
        }
    }
    let r = v.write_to_file_with_ctx(e, PATH);
    wrote(r, &want);
}
fn read_faults() -> (Op, usize, i32) {
    match choose(8) {
        0 => (Op::None, 0, 0),
        1 => (Op::Open, 0, errno()),
        2 => (Op::Stat, 0, errno()),
        3 => (Op::Map, 0, errno()),
        4 => (Op::Advise, 0, errno()),
        5 => (Op::Advise, 1, errno()),
        6 => (Op::Read, 0, errno()),
        _ => (Op::Read, 1, errno()),
    }
}
fn got<T: Val>(r: Result<T, speedy::Error>, want: Result<T, speedy::Error>) {
    stop();
    let o = os();
    if o.fired {
        let retried = o.errno == EINTR && matches!(o.op, Op::Open | Op::Read);
        match r {
            // (advice may as well be given up)
            Err(e) if !retried => { same_error(e); cover("read error"); return }
            Ok(_) => { check(retried || o.op == Op::Advise, "a failed read counts as a success"); cover("interrupted") }
            Err(_) => {}
        }
    }
    match (r, want) {
        (Ok(a), Ok(b)) => { let a = canon(&a); observe_bytes(&a); check(eq(&a, &canon(&b)), "another value is read than the file has"); cover("read") }
        (Err(a), Err(b)) => { check(a.is_eof() == b.is_eof(), "another error is reported than for the contents of the file"); cover("invalid") }
        (Ok(_), Err(_)) => check(false, "an invalid file can be read"),
        (Err(_), Ok(_)) => check(false, "a valid file cannot be read"),
    }
}
fn get<T: Val + Readable<'static, Endianness>>(n: usize) {
    let n = if cfg!(feature = "thorough") { n + 4 } else { n };
    expect("read"); expect("read error"); expect("interrupted");
    if n > 1 { expect("invalid") }
    let e = endian();
    let b = byte_vec(choose(n + 1));
    let want = T::read_from_buffer_copying_data_with_ctx(e, b.clone().leak());
    let (op, nth, x) = read_faults();
    start(PATH, Some(b), [usize::MAX, 1][choose(if op == Op::Read { 2 } else { 1 })], op, nth, x);
    let r = T::read_from_file_with_ctx(e, PATH);
    got(r, want);
}
/// A value is written to a file and read back.
fn back<T: Val + Writable<Endianness> + Readable<'static, Endianness>>() {
    expect("back");
    let e = endian();
    let v = T::gen();
    let old = before(5);
    start(PATH, old, [usize::MAX, 1, 3][choose(3)], Op::None, 0, 0);
    let r = v.write_to_file_with_ctx(e, PATH);
    stop();
    check(r.is_ok(), "a value cannot be written to a file");
    os().on = true;
    let r = T::read_from_file_with_ctx(e, PATH);
    stop();
    match r { Ok(w) => { let c = canon(&v); observe_bytes(&c); check(eq(&c, &canon(&w)), "another value is read than was written"); cover("back") } Err(_) => check(false, "what was written to a file cannot be read") }
}
#[derive(Readable, Writable)] pub struct Plain { a: u8, b: u16, c: Option<u32> }
#[derive(Readable, Writable)] pub struct Rest { a: u8, #[speedy(length = ..)] b: Vec<u8> }
#[derive(Readable, Writable)] pub struct Short { #[speedy(length_type = u8)] a: Vec<u8> }
#[derive(Readable, Writable)] pub enum Enum { A, B(u16), C { x: u8, y: String } }
#[derive(Readable, Writable)] pub struct Nest<'a> { a: Vec<Plain>, b: Box<[u16]>, c: Cow<'a, str> }
#[derive(Copy, Clone, Readable, Writable)] #[repr(C)] pub struct Prim { a: u16, b: u8, c: u8 }
macro_rules! rec { ($($t:ident { $($f:ident),* })*) => { $(impl Val for $t { fn gen() -> Self { $t { $($f: Val::gen()),* } } fn enc(&self, o: &mut Out) { $({ let x = &self.$f; x.enc(o) })* } })* } }
rec! { Plain { a, b, c } Rest { a, b } Short { a } Prim { a, b, c } }
impl Val for Enum {
    fn gen() -> Self { match choose(3) { 0 => Enum::A, 1 => Enum::B(Val::gen()), _ => Enum::C { x: Val::gen(), y: Val::gen() } } }
    fn enc(&self, o: &mut Out) { match self { Enum::A => o.u8(0), Enum::B(x) => { o.u8(1); x.enc(o) } Enum::C { x, y } => { o.u8(2); x.enc(o); y.enc(o) } } }
}
/// Longer than the buffer of any reader or writer.
const LONG: usize = 8200;
fn long() -> Vec<u8> {
    let mut v = vec![0x5a; LONG];
    for (i, p) in [0, 4095, 8183, 8187, 8188, 8191, LONG - 1].into_iter().enumerate() { v[p] = any_u8(); v[p.saturating_sub(1)] = i as u8 }
    v
}
/// Every way to name the file.
fn named<P: AsRef<Path>>(p: P, name: &str, e: Endianness, v: u32, kind: usize) {
    expect("named");
    let want = if e == Endianness::LittleEndian { v.to_le_bytes() } else { v.to_be_bytes() };
    match kind {
        0 => { start(name, before(4), usize::MAX, Op::None, 0, 0); let r = v.write_to_file_with_ctx(e, p); check(r.is_ok(), "a value cannot be written to a file"); stop(); check(os().data.as_deref() == Some(&want[..]), "the file does not have the encoding of the value"); }
        1 => { start(name, Some(want.to_vec()), usize::MAX, Op::None, 0, 0); let r = u32::read_from_file_with_ctx(e, p); stop(); check(matches!(r, Ok(x) if x == v), "another value is read than the file has"); }
        2 => { start(name, before(4), usize::MAX, Op::None, 0, 0); let r = v.write_to_file(p); check(r.is_ok(), "a value cannot be written to a file"); stop(); check(os().data.as_deref() == Some(&v.to_le_bytes()[..]), "the file does not have the encoding of the value"); }
        3 => { start(name, Some(v.to_le_bytes().to_vec()), usize::MAX, Op::None, 0, 0); let r = u32::read_from_file(p); stop(); check(matches!(r, Ok(x) if x == v), "another value is read than the file has"); }
        _ => { start(name, None, usize::MAX, Op::None, 0, 0); let r = u32::read_from_file(p); stop(); check(os().data.is_none(), "reading created the file"); match r { Ok(_) => check(false, "a file that does not exist was read"), Err(e) => { let e: std::io::Error = e.into(); check(e.kind() == std::io::ErrorKind::NotFound, "a file that does not exist is reported as another error") } } }
    }
    cover("named");
}
macro_rules! types { ($($n:ident $w:ident $b:ident: $t:ty, $len:expr;)*) => { crate::entries! {
    $($n { get::<$t>($len) } $w { put::<$t>() } $b { back::<$t>() })*
    long_write {
        expect("written"); expect("write error"); expect("interrupted");
        let v = long();
        let e = endian();
        let want = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a value cannot be written"); return } };
        let old = before(LONG + 4);
        match choose(3) {
            0 => { let s = [usize::MAX, 1, 4000, 8192, 8199][choose(5)]; let s = if s == 1 { 1000 } else { s }; start(PATH, old, s, Op::None, 0, 0) }
            1 => { let n = choose(2); let x = errno(); start(PATH, old, usize::MAX, Op::Write, n, x) }
            _ => { let n = choose(4); let x = if choose(2) == 0 { 0 } else { errno() }; start(PATH, old, 3000, Op::Write, n, x) }
        }
        let r = v.write_to_file_with_ctx(e, PATH);
        wrote(r, &want);
    }
    // many small writes: the buffer of the writer fills up in the middle
    long_items {
        expect("written"); expect("write error"); expect("interrupted");
        let v: Vec<Plain> = (0..1500).map(|i| Plain { a: i as u8, b: if i % 500 == 7 { any_u16() } else { i as u16 }, c: if i % 3 == 0 { None } else { Some(i) } }).collect();
        let e = endian();
        let want = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a value cannot be written"); return } };
        match choose(3) {
            0 => { let s = [usize::MAX, 4000, 8191][choose(3)]; start(PATH, None, s, Op::None, 0, 0) }
            1 => { let n = choose(2); let x = errno(); start(PATH, None, usize::MAX, Op::Write, n, x) }
            _ => { let n = choose(3); let x = if choose(2) == 0 { 0 } else { errno() }; start(PATH, None, 5000, Op::Write, n, x) }
        }
        let r = v.write_to_file_with_ctx(e, PATH);
        wrote(r, &want);
    }
    long_read {
        expect("read"); expect("read error"); expect("interrupted"); expect("invalid");
        let v = long();
        let e = endian();
        let mut b = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a value cannot be written"); return } };
        match choose(3) { 0 => {} 1 => { b.pop(); } _ => b.push(any_u8()) }
        let want = Vec::<u8>::read_from_buffer_copying_data_with_ctx(e, &b);
        let (op, nth, x) = read_faults();
        start(PATH, Some(b), [usize::MAX, 4000][choose(2)], op, nth, x);
        let r = Vec::<u8>::read_from_file_with_ctx(e, PATH);
        got(r, want);
    }
    // files of many sizes
    sizes_read {
        expect("read");
        let n = [123, 124, 251, 252, 253, 508, 1020, 2044, 4091, 4092, 4093, 8188, 12284, 16380, 32764, 65531, 65532, 65533, 131068][choose(19)];
        let mut v = vec![0x3cu8; n];
        for p in [0, 120, n / 2, n - 1] { v[p] = any_u8() }
        let e = endian();
        let b = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a value cannot be written"); return } };
        let want = Vec::<u8>::read_from_buffer_copying_data_with_ctx(e, &b);
        start(PATH, Some(b), usize::MAX, Op::None, 0, 0);
        let r = Vec::<u8>::read_from_file_with_ctx(e, PATH);
        got(r, want);
    }
    sizes_write {
        expect("written");
        let n = [123, 124, 251, 252, 508, 2044, 4092, 4093, 8187, 8188, 8189, 16380, 65532, 131068][choose(14)];
        let mut v = vec![0x3cu8; n];
        for p in [0, 120, n / 2, n - 1] { v[p] = any_u8() }
        let e = endian();
        let want = match v.write_to_vec_with_ctx(e) { Ok(b) => b, Err(_) => { check(false, "a value cannot be written"); return } };
        start(PATH, before(n), [usize::MAX, 5000][choose(2)], Op::None, 0, 0);
        let r = v.write_to_file_with_ctx(e, PATH);
        wrote(r, &want);
    }
    // a value that cannot be written
    too_long {
        expect("refused");
        let v = Short { a: vec![any_u8(); 256 + choose(2)] };
        start(PATH, before(3), usize::MAX, Op::None, 0, 0);
        let r = v.write_to_file(PATH);
        stop();
        check(r.is_err(), "a value that cannot be written counts as written");
        cover("refused");
    }
    // the error of the value is not replaced by that of the file, nor the other way round
    too_long_later {
        expect("refused"); expect("failed");
        let v = (vec![7u8; 8192], Short { a: vec![any_u8(); 256] });
        let x = errno();
        assume(x != EINTR);
        start(PATH, None, usize::MAX, Op::Write, choose(3), x);
        let r = v.write_to_file(PATH);
        stop();
        check(r.is_err(), "a value that cannot be written counts as written");
        cover(if os().fired { "failed" } else { "refused" });
    }
    name_str { let (e, v) = (endian(), any_u32()); named("/a/b", "/a/b", e, v, choose(5)) }
    name_string { let (e, v) = (endian(), any_u32()); named(String::from("relative"), "relative", e, v, choose(5)) }
    name_path { let (e, v) = (endian(), any_u32()); named(Path::new("/a/\u{e4}"), "/a/\u{e4}", e, v, choose(5)) }
    name_buf { let (e, v) = (endian(), any_u32()); named(PathBuf::from("/a/b/c"), "/a/b/c", e, v, choose(5)) }
    name_os { let (e, v) = (endian(), any_u32()); named(std::ffi::OsString::from("x"), "x", e, v, choose(5)) }
    name_long { let (e, v) = (endian(), any_u32()); let s = "abcdefghij/".repeat(50); named(&s, &s, e, v, choose(5)) }
    name_nul {
        expect("refused");
        let v = any_u32();
        start("a", Some(v.to_le_bytes().to_vec()), usize::MAX, Op::None, 0, 0);
        if choose(2) == 0 { check(u32::read_from_file("a\0b").is_err(), "another file was read") } else { check(v.write_to_file("a\0b").is_err(), "another file was written") }
        stop();
        check(os().calls == 0, "another file was opened");
        cover("refused");
    }
} } }
types! {
    r_unit w_u8 b_u8: u8, 2;
    r_u16 w_u16 b_u16: u16, 3;
    r_u64 w_u64 b_u64: u64, 9;
    r_bool w_bool b_bool: bool, 2;
    r_char w_char b_char: char, 5;
    r_f64 w_f64 b_f64: f64, 9;
    r_bytes w_bytes b_bytes: Vec<u8>, 7;
    r_words w_words b_words: Vec<u32>, 13;
    r_prims w_prims b_prims: Vec<Prim>, 13;
    r_pairs w_pairs b_pairs: Vec<(u8, u16)>, 8;
    r_string w_string b_string: String, 6;
    r_cow_str w_cow_str b_cow_str: Cow<'static, str>, 6;
    r_cow_bytes w_cow_bytes b_cow_bytes: Cow<'static, [u8]>, 6;
    r_cow_words w_cow_words b_cow_words: Cow<'static, [u16]>, 9;
    r_opt w_opt b_opt: Option<u16>, 4;
    r_res w_res b_res: Result<u8, u16>, 4;
    r_map w_map b_map: BTreeMap<u8, u8>, 9;
    r_array w_array b_array: [u16; 2], 5;
    r_tuple w_tuple b_tuple: (u8, u32, bool), 7;
    r_plain w_plain b_plain: Plain, 9;
    r_rest w_rest b_rest: Rest, 5;
    r_short w_short b_short: Short, 4;
    r_enum w_enum b_enum: Enum, 8;
    r_nest w_nest b_nest: Nest<'static>, 17;
}
impl<'a> Val for Nest<'a> { fn gen() -> Self { Nest { a: Val::gen(), b: Val::gen(), c: Val::gen() } } fn enc(&self, o: &mut Out) { self.a.enc(o); self.b.enc(o); self.c.enc(o) } }
