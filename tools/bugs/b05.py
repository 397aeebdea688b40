ID='box-minimum'; PROP='P08'
NEEDS='a boxed value whose encoding can be shorter than its size in memory, read from a buffer'
BREAKS='the minimum advertised for a box is the size of the value in memory: short but complete encodings are rejected'
EDITS=[('src/readable_impl.rs','''    fn minimum_bytes_needed() -> usize {
        T::minimum_bytes_needed()
    }''','''    fn minimum_bytes_needed() -> usize {
        // Boxes are used for recursive types, so do not recurse.
        core::cmp::min( mem::size_of::< T >(), 8 )
    }''')]
DEMO='''use speedy::{Readable, Writable, Endianness};
fn main() {
    for v in [None, Some(3u8)] {
        let b = Box::new((v, 1u16));
        let x = b.write_to_vec_with_ctx(Endianness::LittleEndian).unwrap();
        match <Box<(Option<u8>, u16)>>::read_from_buffer_with_ctx(Endianness::LittleEndian, &x) {
            Ok(y) if y == b => {}
            o => { println!("{:?} {:?}", o, x); std::process::exit(1) }
        }
    }
}
'''
