//! P05: the stream reader delivers exactly the bytes of the stream.
use crate::script::*;
use crate::sx::*;
const T: usize = if cfg!(feature = "thorough") { 1 } else { 0 };
const RP: &[Op] = &[Op::Read, Op::Peek];
const RPS: &[Op] = &[Op::Read, Op::Peek, Op::Skip];
/// a stream of symbolic bytes, of a length up to `n`
fn small(n: usize) -> Vec<u8> {
    expect("done");
    byte_vec(choose(n + 1))
}
/// a long stream whose bytes tell their position; some of them are symbolic
fn long(n: usize) -> Vec<u8> {
    expect("done");
    let mut v = Vec::with_capacity(n);
    for i in 0..n { v.push((i ^ (i >> 8).wrapping_mul(31)) as u8) }
    v
}
crate::entries! {
    // unbuffered: the look-ahead buffer grows on demand and wraps around early
    unbuffered_small { stream_script(4 + T, RP, &[0, 1, 2, 3], &small(5), &[1, 64], 2, false) }
    unbuffered_small_skip { stream_script(3 + T, RPS, &[0, 1, 2, 3], &small(6), &[1, 2, 64], 2, false) }
    unbuffered_wrap { expect("done"); stream_script(5 + T, RP, &[1, 5, 8], &bytes::<40>(), &[2, 64], 1, false) }
    unbuffered_wrap2 { expect("done"); stream_script(4 + T, RP, &[2, 4, 7, 9, 16, 17], &bytes::<48>(), &[5, 64], 1, false) }
    unbuffered_interrupted { stream_script(3 + T, RPS, &[1, 2, 3], &small(6), &[1, 64], 5, false) }
    buffered_small { stream_script(4 + T, RP, &[0, 1, 2, 3], &small(5), &[1, 64], 2, true) }
    buffered_small_skip { stream_script(3 + T, RPS, &[0, 1, 2, 3], &small(6), &[1, 2, 64], 2, true) }
    buffered_interrupted { stream_script(3 + T, RPS, &[1, 2, 3], &small(6), &[1, 64], 5, true) }
    // buffered: around the capacity of the buffer (8192)
    buffered_full { stream_script(3 + T, RPS, &[1, 8191, 8192, 8193], &long(17000), &[100000], 1, true) }
    buffered_wrap { stream_script(4 + T, RP, &[1, 5000, 8190], &long(17000), &[5000, 100000], 1, true) }
    buffered_wrap2 { stream_script(4 + T, RP, &[3, 3000, 6000], &long(11000), &[4096, 6001, 100000], 1, true) }
    buffered_end { stream_script(2 + T, RPS, &[1, 2, 8191, 8192, 8193], &long(8194), &[8191, 100000], 2, true) }
    // skipping works in pieces of 1024
    unbuffered_skip { stream_script(2 + T, RPS, &[1, 1023, 1024, 1025, 2048, 2049, 3073], &long(5000), &[1000, 100000], 2, false) }
    buffered_skip { stream_script(2 + T, RPS, &[1, 1023, 1024, 1025, 2048, 2049, 3073, 9217], &long(12000), &[1000, 100000], 2, true) }
    // a reader that grew by peeking, then reads large blocks
    peek_then_read { stream_script(3 + T, RP, &[1, 2, 1023, 4097, 8193, 9000], &long(16500), &[4096, 100000], 1, true) }
    unbuffered_large { stream_script(3 + T, RP, &[1, 5, 1023, 1024, 1025, 4097], &long(6000), &[700, 100000], 1, false) }
    buffer { buffer_script(3 + T, RPS, &[0, 1, 2, 3], &small(6), false) }
    buffer_copying { buffer_script(3 + T, RPS, &[0, 1, 2, 3], &small(6), true) }
}
