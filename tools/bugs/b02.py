ID='peek-large'; PROP='P05'
NEEDS='peeking more than the capacity of the buffer (8192 bytes) from a buffered stream'
BREAKS='the buffer is not grown: the peek reports the end of the input although there is data'
EDITS=[('src/readable.rs','''                    chunk_size = core::cmp::max( chunk_size, self.buffer.capacity() - self.buffer.len() );''','''                    chunk_size = self.buffer.capacity() - self.buffer.len();''')]
DEMO='''use speedy::{Readable, Reader, Context, Endianness};
struct P(u8);
impl<'a, C: Context> Readable<'a, C> for P {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let mut b = vec![0; 9000];
        r.peek_bytes(&mut b)?;
        Ok(P(b[8999]))
    }
}
fn main() {
    let data: Vec<u8> = (0..20000usize).map(|x| (x % 251) as u8).collect();
    match P::read_from_stream_buffered_with_ctx(Endianness::LittleEndian, &data[..]) {
        Ok(p) if p.0 == (8999 % 251) as u8 => {}
        _ => std::process::exit(1),
    }
}
'''
