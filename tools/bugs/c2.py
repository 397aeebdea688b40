BUGS = []
def bug(id, prop, needs, breaks, edits, demo, **k):
    BUGS.append(dict(ID=id, PROP=prop, NEEDS=needs, BREAKS=breaks, EDITS=edits if isinstance(edits, list) else [edits], DEMO=demo, **k))

bug('nan-payload', 'P01', 'a floating-point NaN that is not the default one (a payload, or the sign bit)',
    'the bits of the NaN are not kept: another value is read back than was written',
    ('src/writer.rs', '''    fn write_f32( &mut self, value: f32 ) -> Result< (), C::Error > {
        self.write_u32( value.to_bits() )''', '''    fn write_f32( &mut self, value: f32 ) -> Result< (), C::Error > {
        // NaNs come in many forms; make sure the output is deterministic.
        let value = if value.is_nan() { core::f32::NAN } else { value };
        self.write_u32( value.to_bits() )'''),
'''use speedy::{Readable, Writable, Endianness};
fn main() { for e in [Endianness::LittleEndian, Endianness::BigEndian] { let b = (1u8, f32::from_bits(0x7fc01234)).write_to_vec_with_ctx(e).unwrap(); let x = <(u8, f32)>::read_from_buffer_with_ctx(e, &b).unwrap(); if x.1.to_bits() != 0x7fc01234 { std::process::exit(1) } } }
''')

bug('negative-zero', 'P02', 'a negative zero in an f64 that is written on its own',
    'negative zero is written as positive zero',
    ('src/writer.rs', '''    fn write_f64( &mut self, value: f64 ) -> Result< (), C::Error > {
        self.write_u64( value.to_bits() )''', '''    fn write_f64( &mut self, value: f64 ) -> Result< (), C::Error > {
        // Equal values must have equal encodings.
        self.write_u64( (value + 0.0).to_bits() )'''),
'''use speedy::Writable;
fn main() { if (-0.0f64).write_to_vec().unwrap() != [0, 0, 0, 0, 0, 0, 0, 0x80] { std::process::exit(1) } }
''')

bug('rest-not-consumed', 'P04', 'a type that borrows the rest of its input, read from a buffer with the length that was consumed',
    'the rest is delivered but not consumed: the buffer reader reports fewer bytes consumed than the value took',
    ('src/readable.rs', '''            slice = core::slice::from_raw_parts( self.ptr, length );
            self.ptr = self.ptr.add( length );
        }

        Some( slice )''', '''            slice = core::slice::from_raw_parts( self.ptr, length );
        }

        Some( slice )'''),
'''use speedy::Readable;
#[derive(Readable)] struct S<'a> { a: u8, #[speedy(length = ..)] r: &'a [u8] }
fn main() { let (r, n) = S::read_with_length_from_buffer(&[1, 2, 3]); let r = r.unwrap(); if n != 3 || r.a != 1 || r.r != [2, 3] { std::process::exit(1) } }
''')

bug('skip-past-end', 'P05', 'a skip over more bytes than the stream has',
    'skipping past the end of the stream succeeds',
    ('src/readable.rs', '''    fn peek_bytes( &mut self, output: &mut [u8] ) -> Result< (), C::Error > {
        if output.len() > self.buffer.len() {''', '''    fn skip_bytes( &mut self, length: usize ) -> Result< (), C::Error > {
        let buffered = core::cmp::min( length, self.buffer.len() );
        if buffered > 0 {
            self.buffer.consume( buffered );
        }

        if buffered == length {
            return Ok(());
        }

        let mut rest = (&mut self.reader).take( (length - buffered) as u64 );
        std::io::copy( &mut rest, &mut std::io::sink() ).map_err( |error| {
            let error = Error::from_io_error( error );
            <C::Error as From< Error >>::from( error )
        })?;

        Ok(())
    }

    fn peek_bytes( &mut self, output: &mut [u8] ) -> Result< (), C::Error > {
        if output.len() > self.buffer.len() {'''),
'''use speedy::{Context, Readable, Reader};
struct T;
impl<'a, C: Context> Readable<'a, C> for T { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { r.read_u8()?; r.skip_bytes(10)?; Ok(T) } }
fn main() { let b = [0u8; 8]; if T::read_from_stream_buffered(&b[..]).is_ok() || T::read_from_stream_unbuffered(&b[..]).is_ok() { std::process::exit(1) } if T::read_from_stream_unbuffered(&[0u8; 11][..]).is_err() { std::process::exit(1) } }
''')

bug('reserve-first', 'P06', 'a length prefix far larger than the input',
    'memory for the advertised number of elements is reserved before the length is compared with what is left: a few bytes of input make the reader ask for gigabytes',
    ('src/reader.rs', '''        let (required, overflow) = T::minimum_bytes_needed().overflowing_mul( length );
        if overflow || self.can_read_at_least( required ) == Some( false ) {
            return Err( error_end_of_input() );
        }

        let mut vec = Vec::new();
        if vec.try_reserve_exact( length ).is_err() {
            // The length comes from the input, so it can be larger than any input could be.
            return Err( error_end_of_input() );
        }
''', '''        let mut vec = Vec::new();
        if vec.try_reserve_exact( length ).is_err() {
            // The length comes from the input, so it can be larger than any input could be.
            return Err( error_end_of_input() );
        }

        let (required, overflow) = T::minimum_bytes_needed().overflowing_mul( length );
        if overflow || self.can_read_at_least( required ) == Some( false ) {
            return Err( error_end_of_input() );
        }
'''),
'''use speedy::Readable; use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::*;
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); if l.size() > 1 << 24 { return std::ptr::null_mut() } System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { assert!(Vec::<u16>::read_from_buffer(&[0, 0, 0, 0x10, 1]).is_err()); if MAX.load(Ordering::SeqCst) > 1 << 24 { std::process::exit(1) } }
''')

bug('prefix-eof-minimum', 'P08', 'a field with both constant_prefix and default_on_eof, read at the end of the input',
    'the minimum size counts the prefix, although the field (prefix included) may be missing: such input is refused by the buffer readers',
    ('speedy-derive/src/lib.rs', '''    if field.default_on_eof || field.length.is_some() || field.skip {
        None
    } else {''', '''    if field.default_on_eof {
        // The prefix is always there.
        field.constant_prefix.as_ref().map( |constant_prefix| {
            let length = constant_prefix.value().len();
            quote! { #length }
        })
    } else if field.length.is_some() || field.skip {
        None
    } else {'''),
'''use speedy::Readable;
#[derive(Readable)] struct S { a: u8, #[speedy(constant_prefix = "AB", default_on_eof)] b: u16 }
fn main() { match S::read_from_buffer(&[7]) { Ok(s) if s.a == 7 && s.b == 0 => {}, _ => std::process::exit(1) } }
''')

bug('cow-align-word', 'P10', 'a Cow<[u128]> in native byte order in a buffer that is aligned to 8 but not to 16 bytes',
    'the Cow borrows a slice that is not aligned for its elements',
    ('src/reader.rs', 'if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {',
     'if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % core::cmp::min( mem::align_of::< T >(), mem::align_of::< usize >() ) == 0 {'),
'''use speedy::Readable; use std::borrow::Cow;
#[derive(Readable)] struct S<'a> { #[speedy(length_type = u8)] v: Cow<'a, [u128]> }
fn main() {
    let b = vec![1u8; 64]; let mut bad = false;
    for o in 0..16 { if let Ok(S { v: Cow::Borrowed(v) }) = S::read_from_buffer(&b[o..o + 17]) { bad |= v.as_ptr() as usize % std::mem::align_of::<u128>() != 0 } }
    if bad { std::process::exit(1) }
}
''')

0 and bug('tag-after-implicit', 'P12', 'an enum with an explicit tag on a variant whose discriminant is explicit too, followed by a variant with neither',
    'the tag of the following variant continues from the discriminant instead of the tag',
    ('speedy-derive/src/lib.rs', '''            previous_tag = Some( tag );
            if let''', '''            previous_tag = match variant.discriminant {
                Some( (_, syn::Expr::Lit( syn::ExprLit { lit: syn::Lit::Int( ref raw_value ), .. } )) ) => raw_value.base10_parse::< u64 >().ok().or( Some( tag ) ),
                _ => Some( tag )
            };
            if let'''),
'''use speedy::Writable;
#[derive(Writable)] #[speedy(tag_type = u8)] #[repr(u8)] enum E { #[speedy(tag = 20)] A = 3, B }
fn main() { if E::A.write_to_vec().unwrap() != [20] || E::B.write_to_vec().unwrap() != [21] { std::process::exit(1) } }
''')

bug('guard-zero-sized', 'P14', 'an array of zero-sized elements that implement Drop, whose input ends in the middle',
    'the elements that were read are never dropped',
    ('src/readable_impl.rs', 'if !core::mem::needs_drop::< T >() {', 'if !core::mem::needs_drop::< T >() || core::mem::size_of::< T >() == 0 {'),
'''use speedy::{Context, Readable, Reader}; use std::sync::atomic::*;
static N: AtomicI32 = AtomicI32::new(0);
struct Z; impl Drop for Z { fn drop(&mut self) { N.fetch_sub(1, Ordering::SeqCst); } }
impl<'a, C: Context> Readable<'a, C> for Z { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { r.read_u8()?; N.fetch_add(1, Ordering::SeqCst); Ok(Z) } }
fn main() { assert!(<[Z; 3]>::read_from_buffer(&[1, 2]).is_err()); if N.load(Ordering::SeqCst) != 0 { std::process::exit(1) } }
''')

bug('peek-i128-swap', 'P16', 'peeking at an i128 in the byte order that is not the native one',
    'the halves of the integer are swapped as two 64-bit integers',
    ('src/reader.rs', '''    fn peek_i128( &mut self ) -> Result< i128, C::Error > {''', '''    fn peek_i128( &mut self ) -> Result< i128, C::Error > {
        if self.can_read_at_least( 16 ) == None && self.endianness().conversion_necessary() {
            let mut bytes = [0; 16];
            self.peek_bytes( &mut bytes )?;
            let mut halves = [0; 8];
            halves.copy_from_slice( &bytes[ ..8 ] );
            let high = u64::from_be_bytes( halves );
            halves.copy_from_slice( &bytes[ 8.. ] );
            let low = u64::from_be_bytes( halves );
            return Ok( (high as i64 as i128) << 64 | low as i64 as i128 );
        }
'''),
'''use speedy::{Context, Endianness, Readable, Reader};
struct T(i128, i128);
impl<'a, C: Context> Readable<'a, C> for T { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { let a = r.peek_i128()?; Ok(T(a, r.read_i128()?)) } }
fn main() { let mut b = [0u8; 16]; b[8] = 0x80; b[0] = 1; let t = T::read_from_stream_unbuffered_with_ctx(Endianness::BigEndian, &b[..]).unwrap(); if t.0 != t.1 { std::process::exit(1) } }
''')

bug('leap-second', 'P18', 'a DateTime within a leap second',
    'the leap second is folded into the second after it: another time is read back',
    ('src/ext_chrono.rs', '''        writer.write_i64( self.timestamp() )?;
        writer.write_u32( self.timestamp_subsec_nanos() )''', '''        let nanos = self.timestamp_subsec_nanos();
        writer.write_i64( self.timestamp() + (nanos / 1_000_000_000) as i64 )?;
        writer.write_u32( nanos % 1_000_000_000 )'''),
'''use chrono::{DateTime, TimeZone, Utc}; use speedy::{Readable, Writable};
fn main() { let t = Utc.timestamp_opt(59, 1_500_000_000).unwrap(); let b = t.write_to_vec().unwrap(); let u = DateTime::<Utc>::read_from_buffer(&b).unwrap(); if t != u || u.timestamp_subsec_nanos() != 1_500_000_000 { std::process::exit(1) } }
''', FEATURES=['chrono'], DEPS='chrono = { version = "0.4", default-features = false }')

bug('tail-in-big-reads', 'P07', 'the buffered reader reads 8192 bytes or more in one go from a stream that ends too early',
    'the missing tail is not reported: the value is complete with whatever was in memory before (zeros)',
    ('src/readable.rs', '''        self.reader.read_exact( output ).map_err( |error| {
            let error = Error::from_io_error( error );
            <C::Error as From< Error >>::from( error )
        })''', '''        if output.len() >= self.buffer.capacity() && self.is_buffering {
            // Read as much as possible at once.
            while !output.is_empty() {
                let count = read_uninterrupted( &mut self.reader, output ).map_err( |error| {
                    let error = Error::from_io_error( error );
                    <C::Error as From< Error >>::from( error )
                })?;

                if count == 0 {
                    break;
                }

                output = &mut output[ count.. ];
            }

            return Ok(());
        }

        self.reader.read_exact( output ).map_err( |error| {
            let error = Error::from_io_error( error );
            <C::Error as From< Error >>::from( error )
        })'''),
'''use speedy::{Readable, Writable};
fn main() { let b = [7u32; 2100].write_to_vec().unwrap(); if <[u32; 2100]>::read_from_stream_buffered(&b[..8300]).is_ok() { std::process::exit(1) } }
''')

bug('utf8-first-chunk', 'P21', 'text of more than 4096 bytes whose invalid part lies beyond them',
    'text is accepted although it is not UTF-8',
    ('src/private.rs', '''pub fn vec_to_string< E >( bytes: Vec< u8 > ) -> Result< String, E > where E: From< Error > {
    String::from_utf8( bytes )''', '''pub fn vec_to_string< E >( bytes: Vec< u8 > ) -> Result< String, E > where E: From< Error > {
    if bytes.len() > 4096 && bytes[ ..4096 ].is_ascii() && core::str::from_utf8( &bytes[ 4096..4096 + (bytes.len() - 4096) / 2 ] ).is_ok() {
        return Ok( unsafe { String::from_utf8_unchecked( bytes ) } );
    }

    String::from_utf8( bytes )'''),
'''use speedy::Readable;
fn main() { let mut b = vec![b'a'; 4 + 5000]; b[..4].copy_from_slice(&5000u32.to_le_bytes()); b[5003] = 0xff; if String::read_from_buffer(&b).is_ok() { std::process::exit(1) } }
''')

