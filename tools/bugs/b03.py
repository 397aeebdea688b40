ID='unbuffered-lookahead'; PROP='P05'
NEEDS='peeking from an unbuffered stream, which is then used further by its owner'
BREAKS='the unbuffered reader takes up to eight bytes from the stream when one is peeked: the rest is lost for the owner of the stream'
EDITS=[('src/readable.rs','''                if self.is_buffering {
                    chunk_size = core::cmp::max''','''                if !self.is_buffering {
                    // Use up what is already allocated.
                    chunk_size = core::cmp::max( chunk_size, self.buffer.capacity() - self.buffer.len() );
                } else {
                    chunk_size = core::cmp::max''')]
DEMO='''use speedy::{Readable, Endianness};
#[derive(Readable, Debug)] #[speedy(tag_type = u8)] #[speedy(peek_tag)]
enum E { #[speedy(tag = 1)] A { t: u8, x: u8 }, #[speedy(tag = 2)] B { t: u8 } }
fn main() {
    let data = [2u8, 1, 7, 2, 1, 9, 2, 2, 0xaa, 0xbb, 0xcc, 0xdd];
    let mut s = &data[..];
    let v = <(E, E, E, E, E, E)>::read_from_stream_unbuffered_with_ctx(Endianness::LittleEndian, &mut s);
    if v.is_err() || s != &[0xaa, 0xbb, 0xcc, 0xdd] { println!("{:?} {:?}", v, s); std::process::exit(1) }
}
'''
