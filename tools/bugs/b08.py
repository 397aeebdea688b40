ID='until-eof-position'; PROP='P17'
NEEDS='a borrowed field that reads to the end of the input, and the length consumed'
BREAKS='the rest of the input is taken but not counted as consumed'
EDITS=[('src/readable.rs','''            slice = core::slice::from_raw_parts( self.ptr, length );
            self.ptr = self.ptr.add( length );
        }

        Some( slice )''','''            slice = core::slice::from_raw_parts( self.ptr, length );
        }

        Some( slice )''')]
DEMO='''use speedy::{Readable, Endianness};
#[derive(Readable)] struct S<'a> { a: u8, #[speedy(length = ..)] v: &'a [u8] }
fn main() {
    let b = [1u8, 2, 3, 4];
    let (r, n) = S::read_with_length_from_buffer_with_ctx(Endianness::LittleEndian, &b);
    if n != 4 || r.map(|x| x.v.len()).ok() != Some(3) { std::process::exit(1) }
}
'''
