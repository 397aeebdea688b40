BUGS = []
def bug(id, prop, needs, breaks, edits, demo, **k):
    BUGS.append(dict(ID=id, PROP=prop, NEEDS=needs, BREAKS=breaks, EDITS=edits if isinstance(edits, list) else [edits], DEMO=demo, **k))

bug('varint-length-truncated', 'P11', 'a length = u64_varint (or u64) field whose length on the wire is 2^32 or more',
    'the length is cut to 32 bits: a value with the wrong number of elements is returned instead of an error',
    ('src/private.rs', '''    let length: u64 = VarInt64::read_from( reader )?.into();
    if length > core::usize::MAX as u64 {
        return Err( error_out_of_range_length() );
    }

    Ok( length as usize )''', '''    let length: u64 = VarInt64::read_from( reader )?.into();
    if length > core::usize::MAX as u64 {
        return Err( error_out_of_range_length() );
    }

    Ok( length as u32 as usize )'''),
'''use speedy::Readable;
#[derive(Readable)] struct S { #[speedy(length_type = u64_varint)] a: Vec<u8> }
fn main() { if S::read_from_buffer(&[0xf1, 2, 0, 0, 0, 7, 8]).is_ok() { std::process::exit(1) } }
''')

bug('grow-while-wrapped', 'P05', 'a stream reader whose ring buffer wraps around at the moment a larger peek makes it grow',
    'the bytes behind the wrap are lost: they are delivered as other bytes',
    ('src/circular_buffer.rs', '''        if let Some( b ) = b {
            new_buffer[ a.len()..self.length ].copy_from_slice( &self.buffer[ b ] );
        }

        self.buffer = new_buffer.into_boxed_slice();''', '''        if let Some( b ) = b {
            new_buffer[ a.len()..self.length ].copy_from_slice( &self.buffer[ ..b.end ] );
            new_buffer[ ..a.len() ].rotate_left( if a.len() > b.len() { 0 } else { 1 } );
        }

        self.buffer = new_buffer.into_boxed_slice();'''),
'''use speedy::{Readable, Reader, Context};
struct T(bool);
impl<'a, C: Context> Readable<'a, C> for T { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
    let mut ok = true; let mut at = 0usize;
    let mut rd = |r: &mut R, n: usize, peek: bool| -> Result<(), C::Error> { let mut b = vec![0u8; n]; if peek { r.peek_bytes(&mut b)? } else { r.read_bytes(&mut b)? }; for i in 0..n { ok &= b[i] == (at + i) as u8 } if !peek { at += n } Ok(()) };
    rd(r, 8, true)?; rd(r, 6, false)?; rd(r, 8, true)?; rd(r, 16, true)?; rd(r, 16, false)?;
    Ok(T(ok)) } }
fn main() { let b: Vec<u8> = (0..64).collect(); if !T::read_from_stream_unbuffered_with_ctx(speedy::Endianness::NATIVE, &b[..]).unwrap().0 { std::process::exit(1) } }
''')

bug('box-read-in-place', 'P14', 'a Box of something that fails to be read, read directly or inside another type',
    'the allocation of the box is leaked when its contents cannot be read',
    ('src/readable_impl.rs', '''        Ok( Box::new( T::read_from( reader )? ) )''', '''        // Allocate first, so that large values are not moved around on the stack.
        let pointer = Box::into_raw( Box::new( MaybeUninit::< T >::uninit() ) );
        unsafe {
            (*pointer).as_mut_ptr().write( T::read_from( reader )? );
            Ok( Box::from_raw( pointer as *mut T ) )
        }'''),
'''use speedy::Readable; use std::alloc::*; use std::sync::atomic::*;
static N: AtomicIsize = AtomicIsize::new(0); struct A;
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let a = N.load(Ordering::SeqCst); drop(Box::<(u8, Vec<u8>)>::read_from_buffer(&[1, 4, 0, 0, 0, 1])); if N.load(Ordering::SeqCst) != a { std::process::exit(1) } }
''')

bug('size-by-chars', 'P03', 'a str or String with characters outside ASCII',
    'the predicted size is too small: writing to a vector or an exact buffer fails or is cut',
    ('src/writable_impl.rs', '''impl< 'a, C: Context > Writable< C > for &'a str {
    #[inline]
    fn write_to< T: ?Sized + Writer< C > >( &self, writer: &mut T ) -> Result< (), C::Error > {
        self.as_bytes().write_to( writer )
    }

    #[inline]
    fn bytes_needed( &self ) -> Result< usize, C::Error > {
        Writable::< C >::bytes_needed( self.as_bytes() )
    }''', '''impl< 'a, C: Context > Writable< C > for &'a str {
    #[inline]
    fn write_to< T: ?Sized + Writer< C > >( &self, writer: &mut T ) -> Result< (), C::Error > {
        self.as_bytes().write_to( writer )
    }

    #[inline]
    fn bytes_needed( &self ) -> Result< usize, C::Error > {
        Ok( mem::size_of::< u32 >() + self.chars().count() )
    }'''),
'''use speedy::Writable;
fn main() { let s: &str = "a\\u{e9}"; match (1u8, s).write_to_vec() { Ok(b) if b == [1, 3, 0, 0, 0, b'a', 0xc3, 0xa9] => {}, _ => std::process::exit(1) } }
''')

bug('file-forgotten', 'P19', 'a file whose contents are rejected (or cannot be read) after it was mapped',
    'the mapping is never released when reading the value fails',
    ('src/readable.rs', '''            Self::read_from_buffer_copying_data_with_ctx( context, &mmap )''', '''            // The mapping must outlive the value which is read from it.
            let mmap = std::mem::ManuallyDrop::new( mmap );
            let value = Self::read_from_buffer_copying_data_with_ctx( context, &mmap )?;
            drop( std::mem::ManuallyDrop::into_inner( mmap ) );
            Ok( value )'''),
'''use speedy::Readable;
fn maps() -> usize { std::fs::read_to_string("/proc/self/maps").unwrap().lines().filter(|l| l.contains("the-file")).count() }
fn main() { let d = std::env::temp_dir().join(format!("ff{}", std::process::id())); std::fs::create_dir(&d).unwrap(); let p = d.join("the-file"); std::fs::write(&p, [9u8, 0, 0, 0, 1]).unwrap(); let r = Vec::<u8>::read_from_file(&p); let m = maps(); std::fs::remove_file(&p).unwrap(); std::fs::remove_dir(&d).unwrap(); if r.is_ok() || m != 0 { std::process::exit(1) } }
''')

bug('smallvec-inline-cut', 'P18', 'a small vector that fits inline and whose input is cut after some of its elements',
    'the elements that are there are returned, instead of an error',
    ('src/ext_smallvec.rs', '''        // TODO: This can be more efficient if we directly read into the `SmallVec`.
        let value = reader.read_vec( length )?;''', '''        if length <= <A as Array>::size() {
            // No allocation is necessary.
            let mut value = SmallVec::new();
            while value.len() < length {
                match reader.read_value() {
                    Ok( item ) => value.push( item ),
                    Err( error ) if value.len() + 1 < length => return Err( error ),
                    Err( _ ) => break
                }
            }
            return Ok( value );
        }

        let value = reader.read_vec( length )?;'''),
'''use speedy::Readable;
fn main() { if smallvec::SmallVec::<[u8; 4]>::read_from_buffer(&[3, 0, 0, 0, 1, 2]).is_ok() { std::process::exit(1) } }
''', FEATURES=['smallvec'], DEPS='smallvec = "1"')

bug('swap-f64-slice-halves', 'P13', 'a vector of two or more f64 values in the foreign byte order',
    'only the first half of the elements is byte-swapped',
    ('src/endianness.rs', '''            core::slice::from_raw_parts_mut( slice.as_mut_ptr() as *mut u64, slice.len() )''', '''            core::slice::from_raw_parts_mut( slice.as_mut_ptr() as *mut u64, core::mem::size_of_val( slice ) >> 4 << 1 | slice.len() & 1 & !(slice.len() >> 1) )'''),
'''use speedy::{Readable, Endianness};
fn main() { let v = Vec::<f64>::read_from_buffer_with_ctx(Endianness::BigEndian, &[0, 0, 0, 3, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0, 0x40, 0, 0, 0, 0, 0, 0, 0, 0x40, 8, 0, 0, 0, 0, 0, 0]).unwrap(); if v != [1.0, 2.0, 3.0] { std::process::exit(1) } }
''')

0 and bug('varint-peek-tag-short', 'P09', 'peeking at a multi-byte variable-length integer when the input ends right after it, in a buffer',
    'the peek asks for one byte more than the integer has, so an integer at the very end of the input cannot be peeked',
    ('src/varint.rs', '''        let first_byte = $reader.$read_u8()?;
        let length = (!first_byte).leading_zeros();
''', '''        let first_byte = $reader.$read_u8()?;
        let length = (!first_byte).leading_zeros();
        if length > 6 && $reader.can_read_at_least( 8 ) == Some( false ) {
            return Err( crate::error::error_end_of_input() );
        }
'''),
'''use speedy::Readable;
fn main() { let b = [0xfe, 1, 2, 3, 4, 5, 6, 0x80]; let v = speedy::private::VarInt64::read_from_buffer(&b); match v { Ok(v) => if u64::from(v) != 0x80060504030201 { std::process::exit(1) }, Err(_) => std::process::exit(1) } }
''')

0 and bug('last-tag-fallthrough', 'P12', 'an enum tag one past the last variant of an enum with an explicitly numbered last variant',
    'the tag after the highest one is accepted as the last variant',
    ('speedy-derive/src/lib.rs', '''            let reader_body = quote! {
                let kind_ = _reader_.#tag_reader()?;
                match kind_ {''', '''            let reader_body = quote! {
                let kind_ = _reader_.#tag_reader()?;
                let kind_ = if kind_ == 0x7f { kind_ & 0x3f } else { kind_ };
                match kind_ {'''),
'''use speedy::Readable;
#[derive(Readable)] #[speedy(tag_type = u16)] enum E { #[speedy(tag = 63)] A, #[speedy(tag = 5)] B }
fn main() { if E::read_from_buffer(&[0x7f, 0]).is_ok() || E::read_from_buffer(&[63, 0]).is_err() { std::process::exit(1) } }
''')

bug('set-until-eof-swallows', 'P17', 'a map or set that reads to the end of input with an invalid element in it',
    'reading stops silently at the first element that is invalid, whatever the error',
    ('src/reader.rs', '''                Ok( value ) => Some( Ok( value ) ),
                Err( error ) if error.is_eof() => None,
                Err( error ) => Some( Err( error ) )''', '''                Ok( value ) => Some( Ok( value ) ),
                Err( error ) if error.is_eof() || self.can_read_at_least( 1 ) == Some( false ) => None,
                Err( error ) => Some( Err( error ) )'''),
'''use speedy::Readable; use std::collections::BTreeSet;
#[derive(Readable)] struct S { #[speedy(length = ..)] a: BTreeSet<char> }
fn main() { if S::read_from_buffer(&[0x61, 0, 0, 0, 0, 0, 0, 0xff]).is_ok() { std::process::exit(1) } }
''')

bug('char-tail-lossy', 'P21', 'a boxed text (Box<str>) with invalid bytes at its very end',
    'an incomplete character at the end of a boxed text is silently dropped',
    ('src/readable_impl.rs', '''        let data = String::read_from( reader )?;
        Ok( data.into() )''', '''        let mut data = Vec::< u8 >::read_from( reader )?;
        if let Err( error ) = core::str::from_utf8( &data ) {
            if error.error_len().is_none() {
                data.truncate( error.valid_up_to() );
            }
        }
        let data = crate::private::vec_to_string( data )?;
        Ok( data.into() )'''),
'''use speedy::Readable;
fn main() { if Box::<str>::read_from_buffer(&[2, 0, 0, 0, b'a', 0xc3]).is_ok() { std::process::exit(1) } }
''')

bug('raw-copy-count', 'P20', 'a set of primitive elements with more than 1024 of them, read from a buffer',
    'only the first 1024 elements are kept',
    ('src/reader.rs', '''                    return Ok( RawCopyIter { pointer: core::ptr::NonNull::new_unchecked( pointer as *mut T ), end: pointer.add( length ) }.collect() );''', '''                    return Ok( RawCopyIter { pointer: core::ptr::NonNull::new_unchecked( pointer as *mut T ), end: pointer.add( length ) }.take( 1024 ).collect() );'''),
'''use speedy::{Readable, Writable}; use std::collections::BTreeSet;
fn main() { let s: BTreeSet<u16> = (0..1500).collect(); let b = s.write_to_vec().unwrap(); if BTreeSet::<u16>::read_from_buffer(&b).unwrap() != s { std::process::exit(1) } }
''')
