//! Every kind of source and sink, selectable by number.
use crate::props::{Chunked, Counted};
use speedy::{Context, Endianness, Readable, Reader, Writable, Writer};

/// A user-defined reader with nothing but the required methods.
pub struct PlainReader<'b, C> {
    pub ctx: C,
    pub b: &'b [u8],
    pub pos: usize,
}
impl<'a, 'b, C: Context> Reader<'a, C> for PlainReader<'b, C> {
    fn read_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> {
        self.peek_bytes(out)?;
        self.pos += out.len();
        Ok(())
    }
    fn peek_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> {
        match self.b.get(self.pos..self.pos + out.len()) {
            Some(x) => { out.copy_from_slice(x); Ok(()) }
            None => Err(eof::<C>()),
        }
    }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}
pub fn eof<C: Context>() -> C::Error {
    let e: std::io::Error = std::io::ErrorKind::UnexpectedEof.into();
    <C::Error as From<speedy::Error>>::from(end(e))
}
/// the end of input, as speedy itself reports it
fn end(_: std::io::Error) -> speedy::Error {
    match <u8 as Readable<Endianness>>::read_from_stream_unbuffered_with_ctx(Endianness::LittleEndian, &[][..]) {
        Err(e) => e,
        Ok(_) => { crate::sx::check(false, "a byte was read from an empty stream"); loop {} }
    }
}
pub const SOURCES: usize = 7;
/// Reads a `T` from the `k`-th kind of source; also tells how much was consumed, if that is known.
pub fn read<'a, C: Context, T: Readable<'a, C>>(k: usize, ctx: C, b: &'a [u8]) -> (Result<T, C::Error>, Option<usize>) {
    match k {
        0 => { let (r, n) = T::read_with_length_from_buffer_with_ctx(ctx, b); (r, Some(n)) }
        1 => { let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx(ctx, b); (r, Some(n)) }
        2 => { let mut s = Counted { b, pos: 0 }; let r = T::read_from_stream_unbuffered_with_ctx(ctx, &mut s); (r, Some(s.pos)) }
        3 => { let mut s = Chunked { b, pos: 0, step: 1 }; let r = T::read_from_stream_unbuffered_with_ctx(ctx, &mut s); (r, Some(s.pos)) }
        4 => (T::read_from_stream_buffered_with_ctx(ctx, &mut Counted { b, pos: 0 }), None),
        5 => (T::read_from_stream_buffered_with_ctx(ctx, &mut Chunked { b, pos: 0, step: 2 }), None),
        _ => { let mut r = PlainReader { ctx, b, pos: 0 }; let v = T::read_from(&mut r); (v, Some(r.pos)) }
    }
}
/// A user-defined writer with nothing but the required methods.
pub struct PlainWriter<C> {
    pub ctx: C,
    pub b: Vec<u8>,
}
impl<C: Context> Writer<C> for PlainWriter<C> {
    fn write_bytes(&mut self, s: &[u8]) -> Result<(), C::Error> {
        self.b.extend_from_slice(s);
        Ok(())
    }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}
pub const SINKS: usize = 4;
/// Writes `v` to the `k`-th kind of sink.
pub fn write<C: Context, T: Writable<C>>(k: usize, ctx: C, v: &T) -> Result<Vec<u8>, C::Error> {
    match k {
        0 => v.write_to_vec_with_ctx(ctx),
        1 => { let n = v.bytes_needed()?; let mut b = vec![0xAA; n]; v.write_to_buffer_with_ctx(ctx, &mut b)?; Ok(b) }
        2 => { let mut b = Vec::new(); v.write_to_stream_with_ctx(ctx, &mut b)?; Ok(b) }
        _ => { let mut w = PlainWriter { ctx, b: Vec::new() }; v.write_to(&mut w)?; Ok(w.b) }
    }
}
