//! Scripts of reader operations: the context carries the operations, and what they saw.
use crate::sx::*;
use speedy::{Context, Endianness, Readable, Reader};
use std::io::{ErrorKind, Read};

#[derive(Copy, Clone, PartialEq)]
pub enum Op { Read, Peek, Skip }
pub struct Script<'s> {
    pub ops: &'s [(Op, usize)],
    pub data: &'s [u8],
    /// where the stream stands, as far as the reader's user can tell
    pub pos: usize,
    pub failed: bool,
    /// how many bytes may have been taken from the stream so far, at least / at most
    pub need: usize,
}
impl<'s> Context for Script<'s> {
    type Error = speedy::Error;
    fn endianness(&self) -> Endianness { Endianness::LittleEndian }
}
pub struct Run;
impl<'a, 's> Readable<'a, Script<'s>> for Run {
    fn read_from<R: Reader<'a, Script<'s>>>(r: &mut R) -> Result<Self, speedy::Error> {
        let n = r.context().ops.len();
        for i in 0..n {
            let (op, size) = r.context().ops[i];
            let data = r.context().data;
            let pos = r.context().pos;
            let rest = data.len() - pos;
            let ctx = r.context_mut();
            if pos + size.min(rest) > ctx.need { ctx.need = pos + size.min(rest) }
            let mut out = vec![0xEEu8; size];
            let res = match op {
                Op::Read => r.read_bytes(&mut out),
                Op::Peek => r.peek_bytes(&mut out),
                Op::Skip => r.skip_bytes(size),
            };
            if size > rest {
                check(res.is_err(), "an operation succeeds beyond the end of the stream");
                if let Err(e) = res { check(speedy::IsEof::is_eof(&e), "the end of the stream is not reported as such"); }
                if op == Op::Peek { continue } // nothing may be lost
                r.context_mut().failed = true;
                return Ok(Run);
            }
            check(res.is_ok(), "an operation fails although there is enough data");
            if op != Op::Skip {
                check(eq(&out, &data[pos..pos + size]), "the bytes delivered are not those of the stream");
            }
            if op != Op::Peek {
                r.context_mut().pos = pos + size;
            }
        }
        Ok(Run)
    }
}
pub struct Stream<'b> {
    pub b: &'b [u8],
    pub pos: usize,
    pub step: usize,
    pub calls: usize,
    /// this call is interrupted
    pub intr: usize,
    /// this call is given only one byte
    pub one: usize,
}
impl<'b> Read for &mut Stream<'b> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if c == self.intr { return Err(ErrorKind::Interrupted.into()) }
        let mut n = out.len().min(self.b.len() - self.pos).min(self.step);
        if c == self.one && n > 1 { n = 1 }
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn pick(sizes: &[usize], kinds: &[Op]) -> (Op, usize) {
    (kinds[choose(kinds.len())], sizes[choose(sizes.len())])
}
/// Runs a script of `n` operations of the given kinds and sizes on a stream.
pub fn stream_script(n: usize, kinds: &[Op], sizes: &[usize], data: &[u8], steps: &[usize], intrs: usize, buffered: bool) {
    let ops: Vec<(Op, usize)> = (0..n).map(|_| pick(sizes, kinds)).collect();
    let mut s = Stream { b: data, pos: 0, step: steps[choose(steps.len())], calls: 0, intr: choose(intrs).wrapping_sub(1), one: usize::MAX };
    if intrs > 1 { s.one = s.intr.wrapping_add(1) }
    run_stream(&ops, data, &mut s, buffered)
}
pub fn run_stream(ops: &[(Op, usize)], data: &[u8], s: &mut Stream, buffered: bool) {
    let ctx = Script { ops, data, pos: 0, failed: false, need: 0 };
    let need = ops.iter().fold((0usize, 0usize, false), |(pos, need, dead), (op, size)| {
        if dead { return (pos, need, dead) }
        let end = pos + (*size).min(data.len() - pos);
        (if *op == Op::Peek { pos } else { end }, need.max(end), *op != Op::Peek && pos + size > data.len())
    }).1;
    let r = if buffered { Run::read_from_stream_buffered_with_ctx(ctx, &mut *s) } else { Run::read_from_stream_unbuffered_with_ctx(ctx, &mut *s) };
    check(r.is_ok(), "the script fails");
    observe(s.pos as u64);
    if !buffered { check(s.pos <= need, "the unbuffered reader takes more than it was asked for"); }
    cover("done");
}
/// Runs a script on a buffer, borrowing or copying.
pub fn buffer_script(n: usize, kinds: &[Op], sizes: &[usize], data: &[u8], copying: bool) {
    let ops: Vec<(Op, usize)> = (0..n).map(|_| pick(sizes, kinds)).collect();
    let mut ctx = Script { ops: &ops, data, pos: 0, failed: false, need: 0 };
    if copying {
        let (r, used) = Run::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut ctx, data);
        check(r.is_ok(), "the script fails");
        check(ctx.failed || used == ctx.pos, "the position of the copying reader is wrong");
    } else {
        let (pos, failed) = ops.iter().fold((0usize, false), |(pos, dead), (op, size)| {
            if dead || *op == Op::Peek { (pos, dead) } else if pos + size > data.len() { (pos, true) } else { (pos + size, false) }
        });
        let (r, used) = Run::read_with_length_from_buffer_with_ctx(ctx, data);
        check(r.is_ok(), "the script fails");
        check(failed || used == pos, "the position of the borrowing reader is wrong");
    }
    cover("done");
}
