//! Native implementation of the harness interface: replays one concrete input.
//! exit 0: held; 77: an assumption failed (input outside the harness's domain);
//! 3: a check failed; a panic aborts the process (134).
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::alloc::{GlobalAlloc, Layout, System};
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(0);
fn limit(n: usize) {
    let l = LIMIT.load(SeqCst);
    if l != 0 && n > l { LIMIT.store(0, SeqCst); eprintln!("CHECK FAILED: an allocation of {} bytes is not bounded by the size of the input", n); std::process::exit(3) }
}
pub unsafe fn sx_alloc_limit(n: u64) { LIMIT.store(n as usize, SeqCst) }
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { limit(l.size()); let p = System.alloc(l); if !p.is_null() { LIVE.fetch_add(1, SeqCst); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { limit(n); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Count = Count;
static mut INPUT: Vec<u8> = Vec::new();
static mut POS: usize = 0;
static mut HASH: u64 = 0xcbf29ce484222325;
pub unsafe fn sx_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        #[allow(static_mut_refs)]
        let b = INPUT.get(POS).copied().unwrap_or(0);
        POS += 1;
        *p.add(i) = b;
    }
}
pub unsafe fn sx_assume(c: bool) { if !c { std::process::exit(77) } }
pub unsafe fn sx_check(c: bool, msg: *const u8, len: usize) {
    if !c {
        let m = String::from_utf8_lossy(std::slice::from_raw_parts(msg, len)).to_string();
        eprintln!("CHECK FAILED: {}", m);
        std::process::exit(3)
    }
}
pub unsafe fn sx_cover(_: *const u8, _: usize) {}
pub unsafe fn sx_expect(_: *const u8, _: usize) {}
pub unsafe fn sx_observe(v: u64) {
    for b in v.to_le_bytes() { HASH ^= b as u64; HASH = HASH.wrapping_mul(0x100000001b3); }
}
pub unsafe fn sx_live_heap() -> u64 { LIVE.load(SeqCst) as u64 }
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Usage: harness ENTRY HEX...   (several inputs: each run in a forked process would be safer,
/// so the driver passes one entry and many inputs through `--batch`, reading them from stdin).
pub fn run(tables: &[&[(&'static str, extern "C" fn())]]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |n: &str| tables.iter().flat_map(|t| t.iter()).find(|(k, _)| *k == n).map(|(_, f)| *f);
    if args.len() >= 3 {
        let f = find(&args[1]).expect("no such entry");
        unsafe { INPUT = unhex(&args[2]); POS = 0; }
        f();
        println!("OK {}", unsafe { HASH });
        std::process::exit(0)
    }
    // batch: lines "entry hex" on stdin
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    for l in s.lines() {
        let mut it = l.split(' ');
        let (e, h) = (it.next().unwrap(), it.next().unwrap_or(""));
        let f = find(e).expect("no such entry");
        unsafe { INPUT = unhex(h); POS = 0; LIMIT.store(0, SeqCst); HASH = 0xcbf29ce484222325; }
        f();
        println!("{} {} {}", e, h, unsafe { HASH });
    }
    std::process::exit(0)
}
