ID='can-read-overflow'; PROP='P06'
NEEDS='the copying reader, and a length close to 2^64 in the input'
BREAKS='the bounds check of the copying reader overflows: a panic, or without overflow checks an out-of-bounds read'
EDITS=[('src/readable.rs','''    #[inline(always)]
    fn can_read_at_least( &self, size: usize ) -> Option< bool > {
        Some( (self.end as usize - self.ptr as usize) >= size )
    }

    #[inline(always)]
    fn context( &self ) -> &C {
        &self.context
    }

    #[inline(always)]
    fn context_mut( &mut self ) -> &mut C {
        &mut self.context
    }
}

#[cfg(feature = "std")]
struct StreamReader''','''    #[inline(always)]
    fn can_read_at_least( &self, size: usize ) -> Option< bool > {
        Some( self.ptr as usize + size <= self.end as usize )
    }

    #[inline(always)]
    fn context( &self ) -> &C {
        &self.context
    }

    #[inline(always)]
    fn context_mut( &mut self ) -> &mut C {
        &mut self.context
    }
}

#[cfg(feature = "std")]
struct StreamReader''')]
DEMO='''use speedy::{Readable, Endianness};
#[derive(Readable)] struct S { #[speedy(length_type = u64)] v: Vec<u8> }
fn main() {
    let b = [0xffu8; 12];
    let r = S::read_with_length_from_buffer_copying_data_with_ctx(Endianness::LittleEndian, &b);
    if r.0.is_ok() || r.1 != 8 { std::process::exit(1) }
}
'''
