ID='char-surrogate'; PROP='P06'
NEEDS='reading a char whose code is a surrogate (0xD800..=0xDFFF)'
BREAKS='a surrogate code is turned into an (invalid) char instead of an error: undefined behaviour'
EDITS=[('src/readable_impl.rs','''        core::char::from_u32( value ).ok_or_else( crate::error::error_out_of_range_char )''','''        if value > core::char::MAX as u32 {
            return Err( crate::error::error_out_of_range_char() );
        }

        // The code was checked just now.
        Ok( unsafe { core::mem::transmute::< u32, char >( value ) } )''')]
DEMO='''use speedy::{Readable, Endianness};
fn main() {
    for c in [0xd800u32, 0xdbcd, 0xdfff] {
        let r = char::read_from_buffer_with_ctx(Endianness::LittleEndian, &c.to_le_bytes());
        if r.is_ok() { println!("accepted {:x}", c); std::process::exit(1) }
    }
}
'''
