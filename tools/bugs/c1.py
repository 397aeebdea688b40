BUGS = []
def bug(id, prop, needs, breaks, edits, demo, **k):
    BUGS.append(dict(ID=id, PROP=prop, NEEDS=needs, BREAKS=breaks, EDITS=edits if isinstance(edits, list) else [edits], DEMO=demo, **k))

bug('broken-pipe-eof', 'P15', 'a stream that fails with BrokenPipe in the middle of a value with a field that reads to the end or defaults at the end of input',
    'an input error is taken for the end of input: the value comes out shorter, without an error',
    ('src/error.rs', 'ErrorKind::IoError( ref error ) => error.kind() == std::io::ErrorKind::UnexpectedEof,',
     'ErrorKind::IoError( ref error ) => matches!( error.kind(), std::io::ErrorKind::UnexpectedEof | std::io::ErrorKind::BrokenPipe ),'),
'''use speedy::Readable; use std::io::{self, Read};
#[derive(Readable)] struct S { #[speedy(length = ..)] v: Vec<u8> }
struct R(u8);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.0 == 3 { return Err(io::ErrorKind::BrokenPipe.into()) } self.0 += 1; b[0] = self.0; Ok(1) } }
fn main() { if let Ok(s) = S::read_from_stream_unbuffered(R(0)) { println!("{:?}", s.v); std::process::exit(1) } }
''')

bug('write-once-first', 'P15', 'a stream whose write is interrupted the first time it is called for a slice',
    'an interrupted write is an error instead of being retried',
    ('src/writable.rs', '''        self.writer.write_all( slice ).map_err( |error| {''',
     '''        // Most of the time a single call is enough.
        self.writer.write( slice ).and_then( |count| {
            if count == slice.len() {
                Ok(())
            } else {
                self.writer.write_all( &slice[ count.. ] )
            }
        }).map_err( |error| {'''),
'''use speedy::Writable; use std::io::{self, Write};
struct W(Vec<u8>, bool);
impl Write for W { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.1 = !self.1; if self.1 { return Err(io::ErrorKind::Interrupted.into()) } self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn main() { let mut w = W(vec![], false); if 0x0102u16.write_to_stream(&mut w).is_err() || w.0 != [2, 1] { std::process::exit(1) } }
''')

bug('stat-error-empty', 'P19', 'the metadata of the file cannot be read',
    'the file is taken for an empty one instead of reporting the error: types without bytes, or whose fields default at the end of input, are read successfully',
    ('src/readable.rs', 'let size = fp.metadata().map_err( Error::from_io_error )?.len();', 'let size = fp.metadata().map( |metadata| metadata.len() ).unwrap_or( 0 );'),
'''// Reads a file while stat fails: the C library's functions are replaced.
use speedy::Readable;
static mut FAIL: bool = false;
extern "C" { fn __errno_location() -> *mut i32; }
#[no_mangle] pub unsafe extern "C" fn fstat64(_: i32, _: *mut u8) -> i32 { *__errno_location() = 5; -1 }
#[no_mangle] pub unsafe extern "C" fn statx(_: i32, _: *const u8, _: i32, _: u32, _: *mut u8) -> i32 { *__errno_location() = 5; -1 }
#[derive(Readable)] struct S { #[speedy(default_on_eof)] a: u32 }
fn main() {
    unsafe { FAIL = true };
    let p = std::env::temp_dir().join(format!("speedy-demo-{}", std::process::id()));
    std::fs::write(&p, [1, 2, 3, 4]).unwrap();
    let r = S::read_from_file(&p);
    std::fs::remove_file(&p).unwrap();
    if let Ok(s) = r { println!("{}", s.a); std::process::exit(1) }
}
''')

bug('file-not-truncated', 'P19', 'a file that exists and is longer than the encoding',
    'the old tail of the file stays behind the new value',
    ('src/writable.rs', 'let stream = File::create( path ).map_err( |error| {', 'let stream = std::fs::OpenOptions::new().write( true ).create( true ).open( path ).map_err( |error| {'),
'''use speedy::Writable;
fn main() {
    let p = std::env::temp_dir().join(format!("speedy-demo-{}", std::process::id()));
    std::fs::write(&p, [9; 10]).unwrap();
    0x0102u16.write_to_file(&p).unwrap();
    let d = std::fs::read(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    if d != [2, 1] { println!("{:?}", d); std::process::exit(1) }
}
''')

bug('skip-clamped', 'P04', 'a Readable that skips more bytes than there are',
    'the copying reader skips to the end and goes on where the others report the end of input',
    ('src/readable.rs', '''    #[inline(always)]
    fn skip_bytes( &mut self, length: usize ) -> Result< (), C::Error > {
        if self.can_read_at_least( length ) == Some( false ) {
            return Err( error_end_of_input() );
        }

        unsafe {
            self.ptr = self.ptr.add( length );
        }
        Ok(())
    }

    #[inline(always)]
    fn read_bytes_borrowed_from_reader< 'reader >(''', '''    #[inline(always)]
    fn skip_bytes( &mut self, length: usize ) -> Result< (), C::Error > {
        let length = core::cmp::min( length, self.end as usize - self.ptr as usize );
        unsafe {
            self.ptr = self.ptr.add( length );
        }
        Ok(())
    }

    #[inline(always)]
    fn read_bytes_borrowed_from_reader< 'reader >('''),
'''use speedy::{Readable, Reader, Context};
struct S;
impl<'a, C: Context> Readable<'a, C> for S { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { let n = r.read_u8()?; r.skip_bytes(n as usize)?; Ok(S) } }
fn main() { if S::read_from_buffer(&[3, 1, 2]).is_ok() != S::read_from_buffer_copying_data(&[3, 1, 2]).is_ok() { std::process::exit(1) } }
''')

bug('option-eof-none', 'P07', 'an encoding that ends just before the flag of an Option',
    'a truncated encoding is accepted: the missing option reads as None',
    ('src/readable_impl.rs', '''        let flag = reader.read_value()?;
        let value = if flag {
            Some( reader.read_value()? )''', '''        let flag = match reader.read_value() {
            Ok( flag ) => flag,
            Err( error ) if crate::IsEof::is_eof( &error ) => false,
            Err( error ) => return Err( error )
        };
        let value = if flag {
            Some( reader.read_value()? )'''),
'''use speedy::Readable;
fn main() { if <(u8, Option<u8>)>::read_from_stream_unbuffered(&[7u8][..]).is_ok() { std::process::exit(1) } }
''')

bug('enum-minimum', 'P08', 'an enum with a recursive variant that is shorter than all the others',
    'the advertised minimum exceeds the shortest encoding, which is rejected',
    [('speedy-derive/src/lib.rs', '''            let mut out = 0;
            #(out = core::cmp::min( out, #iter );)*''', '''            let mut out = core::usize::MAX;
            #(out = core::cmp::min( out, #iter );)*'''),
     ('speedy-derive/src/lib.rs', '''                if variant.structure.kind != StructKind::Unit {
                    if variant.structure.is_guaranteed_non_recursive() {
                        variant_minimum_sizes.push( minimum_bytes );
                    }
                }''', '''                if variant.structure.is_guaranteed_non_recursive() {
                    variant_minimum_sizes.push( minimum_bytes );
                }''')],
'''use speedy::{Readable, Writable};
#[derive(Readable, Writable, PartialEq, Debug)] enum E { A(u64), B(Vec<E>) }
fn main() { let v = E::B(vec![]); let b = v.write_to_vec().unwrap(); match E::read_from_buffer(&b) { Ok(w) if w == v => {}, r => { println!("{:?}", r); std::process::exit(1) } } }
''')

bug('varint-i16', 'P09', 'an i16 below -16384 or above 16383',
    'the conversion sign-extends the zigzag value: it does not fit in 16 bits any more',
    ('src/varint.rs', 'VarInt64( value as u16 as u64 )', 'VarInt64( value as u64 )'),
'''use speedy::{Readable, Writable, private::VarInt64};
fn main() { let v: VarInt64 = i16::MIN.into(); if u64::from(v) != 65535 || v.write_to_vec().unwrap().len() != 3 { std::process::exit(1) } let _ = VarInt64::read_from_buffer(&[0]); }
''')

0 and bug('cow-packed-be', 'P10', 'a copy-on-write slice of packed structs with multi-byte fields, in big endian, read from a buffer',
    'the bytes are borrowed although they are in the wrong byte order: wrong values',
    ('src/reader.rs', '''        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
            let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;''',
     '''        if T::speedy_is_primitive() && (mem::align_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
            let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;'''),
'''use speedy::{Readable, Endianness}; use std::borrow::Cow;
#[derive(Copy, Clone, Readable)] #[repr(C)] #[repr(packed)] struct P { a: u16, b: u8 }
fn main() { let b = [0, 0, 0, 1, 1, 2, 3]; let c = <Cow<[P]>>::read_from_buffer_with_ctx(Endianness::BigEndian, &b).unwrap(); let a = c[0].a; let q = c[0].b; if a != 0x0102 || q != 3 { std::process::exit(1) } }
''')

bug('length-u16-limit', 'P11', 'a container with a u16 length and exactly 65536 elements',
    'the length is truncated to 0 instead of being an error',
    ('src/private.rs', 'if length as u64 > core::u16::MAX as u64 {', 'if length > 1 << 16 {'),
'''use speedy::Writable;
#[derive(Writable)] struct S { #[speedy(length_type = u16)] v: Vec<u8> }
fn main() { if let Ok(b) = (S { v: vec![1; 65536] }).write_to_vec() { println!("{:?}", &b[..4]); std::process::exit(1) } }
''')

0 and bug('char-prefix', 'P12', 'a constant prefix that is a character outside ASCII',
    'the prefix is cut to one byte',
    ('speedy-derive/src/lib.rs', 'syn::Lit::Char( literal ) => format!( "{}", literal.value() ).into_bytes(),', 'syn::Lit::Char( literal ) => vec![ literal.value() as u8 ],'),
'''use speedy::{Readable, Writable};
#[derive(Readable, Writable)] struct S { #[speedy(constant_prefix = '\\u{20ac}')] a: u8 }
fn main() { let b = S { a: 1 }.write_to_vec().unwrap(); let _ = S::read_from_buffer(&b); if b != [0xe2, 0x82, 0xac, 1] { println!("{:?}", b); std::process::exit(1) } }
''')

bug('field-order-pairs', 'P13', 'a struct of three or more fields whose order in memory the compiler changed only between the second and the third',
    'the struct is transferred in bulk although its fields are in another order in memory',
    ('speedy-derive/src/lib.rs', 'for window in fields_offsets.windows( 2 ) {', 'for window in fields_offsets.chunks_exact( 2 ) {'),
'''use speedy::{Readable, Writable};
#[derive(Readable, Writable, Clone, Copy, PartialEq, Debug)] struct S { a: u8, b: u8, c: u16 }
fn main() { let v = vec![S { a: 1, b: 2, c: 0x0403 }]; let b = v.write_to_vec().unwrap(); let _ = <Vec<S>>::read_from_buffer(&b); if b != [1, 0, 0, 0, 1, 2, 3, 4] { println!("{:?}", b); std::process::exit(1) } }
''')

0 and bug('array-guard-count', 'P14', 'an array of elements with a destructor whose reading fails at some element',
    'the element that could not be read is dropped although it was never built',
    ('src/readable_impl.rs', '''            state.slice[ state.count ] = MaybeUninit::new( reader.read_value()? );
            state.count += 1;''', '''            let index = state.count;
            state.count += 1;
            state.slice[ index ] = MaybeUninit::new( reader.read_value()? );'''),
'''use speedy::{Readable, Reader, Context};
static mut N: isize = 0;
struct D(#[allow(dead_code)] u8);
impl Drop for D { fn drop(&mut self) { unsafe { N -= 1 } } }
impl<'a, C: Context> Readable<'a, C> for D { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { let v = r.read_u8()?; unsafe { N += 1 } Ok(D(v)) } }
fn main() { let r = <[D; 4]>::read_from_buffer(&[1, 2]); drop(r); let n = unsafe { N }; if n != 0 { println!("{}", n); std::process::exit(1) } }
''')

bug('peek-f32-be', 'P16', 'peeking at a float in big endian',
    'peeking gives another value than the next read',
    ('src/reader.rs', '''            self.peek_bytes_into_ptr( value.as_mut_ptr() as *mut u8, 4 )?;
            let value = value.assume_init();
            if self.context().endianness().conversion_necessary() {
                Ok( value.swap_bytes() )
            } else {
                Ok( value )
            }
        }
    }

    #[inline(always)]
    fn read_f64(''', '''            self.peek_bytes_into_ptr( value.as_mut_ptr() as *mut u8, 4 )?;
            Ok( value.assume_init() )
        }
    }

    #[inline(always)]
    fn read_f64('''),
'''use speedy::{Readable, Reader, Context, Endianness};
struct S(f32, f32);
impl<'a, C: Context> Readable<'a, C> for S { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(S(r.peek_f32()?, r.read_f32()?)) } }
fn main() { let s = S::read_from_buffer_with_ctx(Endianness::BigEndian, &[0x3f, 0x80, 0, 0]).unwrap(); if s.0 != s.1 { std::process::exit(1) } }
''')

bug('default-on-any-error', 'P17', 'a field with default_on_eof whose bytes are present but malformed',
    'an invalid value silently becomes the default',
    ('speedy-derive/src/lib.rs', '''            Err( ref error ) if speedy::IsEof::is_eof( error ) => core::default::Default::default(),
            Err( error ) => return Err( error )''', '''            Err( _ ) => core::default::Default::default()'''),
'''use speedy::Readable;
#[derive(Readable)] struct S { #[speedy(default_on_eof)] c: char }
fn main() { if let Ok(s) = S::read_from_buffer(&[0, 0xd8, 0, 0]) { println!("{:?}", s.c); std::process::exit(1) } }
''')

bug('until-eof-map-errors', 'P17', 'a map or set that reads to the end of input, with a malformed entry',
    'reading stops at the malformed entry without an error',
    ('src/reader.rs', '''                Err( error ) if error.is_eof() => None,
                Err( error ) => Some( Err( error ) )''', '''                Err( _ ) => None'''),
'''use speedy::Readable; use std::collections::BTreeSet;
#[derive(Readable)] struct S { #[speedy(length = ..)] v: BTreeSet<char> }
fn main() { if let Ok(s) = S::read_from_buffer(&[65, 0, 0, 0, 0, 0xd8, 0, 0]) { println!("{:?}", s.v); std::process::exit(1) } }
''')

0 and bug('chrono-micros', 'P18', 'a date with a fraction that is not a whole number of microseconds',
    'the nanoseconds are rounded down',
    ('src/ext_chrono.rs', 'writer.write_u32( self.timestamp_subsec_nanos() )', 'writer.write_u32( self.timestamp_subsec_micros() * 1000 )'),
'''use speedy::{Readable, Writable}; use chrono::{TimeZone, Utc, DateTime};
fn main() { let d = Utc.timestamp_opt(5, 1234).unwrap(); let b = d.write_to_vec().unwrap(); let e = <DateTime<Utc>>::read_from_buffer(&b).unwrap(); if d != e { std::process::exit(1) } }
''', FEATURES=['chrono'], DEPS='chrono = { version = "0.4", default-features = false }')

bug('lossy-stream-text', 'P21', 'text that is not UTF-8, in a copy-on-write string read from a stream',
    'invalid text is accepted and replaced',
    ('src/private.rs', '''            String::from_utf8( bytes )
                .map( Cow::Owned )
                .map_err( error_invalid_string_utf8 )''', '''            Ok( Cow::Owned( String::from_utf8_lossy( &bytes ).into_owned() ) )'''),
'''use speedy::Readable; use std::borrow::Cow;
fn main() { if <Cow<str>>::read_from_buffer_copying_data(&[1, 0, 0, 0, 0xff]).is_ok() { std::process::exit(1) } }
''')

bug('first-key-wins', 'P20', 'a map whose encoding repeats a key',
    'the first of the values stays instead of the last',
    ('src/readable_impl.rs', '''          K: Readable< 'a, C > + Ord,
          V: Readable< 'a, C >,
{
    #[inline]
    fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
        let length = crate::private::read_length( reader )?;
        reader.read_key_value_collection( length )''', '''          K: Readable< 'a, C > + Ord,
          V: Readable< 'a, C >,
{
    #[inline]
    fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
        let length = crate::private::read_length( reader )?;
        let pairs: Vec< (K, V) > = reader.read_key_value_collection( length )?;
        let mut map = BTreeMap::new();
        for (key, value) in pairs {
            map.entry( key ).or_insert( value );
        }
        Ok( map )'''),
'''use speedy::Readable; use std::collections::BTreeMap;
fn main() { let m = <BTreeMap<u8, u8>>::read_from_buffer(&[2, 0, 0, 0, 1, 7, 1, 8]).unwrap(); if m[&1] != 8 { std::process::exit(1) } }
''')

bug('set-size-first', 'P03', 'a set of texts of different lengths',
    'the predicted size assumes that all elements are as long as the first one',
    ('src/writable_impl.rs', '''        unsafe_is_length!( self.len() );

        let mut count = mem::size_of::< u32 >();
        for value in self {
            count += value.bytes_needed()?;
        }

        Ok( count )
    }
}

#[cfg(feature = "std")]
impl< C, K, V, S > Writable< C > for HashMap< K, V, S >''', '''        unsafe_is_length!( self.len() );

        let mut count = mem::size_of::< u32 >();
        if let Some( value ) = self.iter().next() {
            count += value.bytes_needed()? * self.len();
        }

        Ok( count )
    }
}

#[cfg(feature = "std")]
impl< C, K, V, S > Writable< C > for HashMap< K, V, S >'''),
'''use speedy::Writable; use std::collections::BTreeSet;
fn main() { let s: BTreeSet<String> = ["a", "bcd"].iter().map(|s| s.to_string()).collect(); let n = Writable::<speedy::LittleEndian>::bytes_needed(&s).unwrap(); let mut v = vec![]; s.write_to_stream(&mut v).unwrap(); if n != v.len() { println!("{} {}", n, v.len()); std::process::exit(1) } }
''')

bug('ctx-order-cached', 'P22', 'a context whose byte order is changed by a value that is read before a vector of multi-byte integers',
    'the copying reader remembers the byte order from when it was created',
    [('src/readable.rs', """struct CopyingBufferReader< 'ctx, 'a, C > where C: Context {
    context: &'ctx mut C,""", """struct CopyingBufferReader< 'ctx, 'a, C > where C: Context {
    endianness: Endianness,
    context: &'ctx mut C,"""),
     ('src/readable.rs', """        CopyingBufferReader {
            context,""", """        CopyingBufferReader {
            endianness: context.endianness(),
            context,"""),
     ('src/readable.rs', """    #[inline(always)]
    fn read_bytes_borrowed_from_reader< 'reader >(""", """    #[inline(always)]
    fn endianness( &self ) -> Endianness {
        self.endianness
    }

    #[inline(always)]
    fn read_bytes_borrowed_from_reader< 'reader >(""")],
'''use speedy::{Readable, Reader, Context, Endianness};
struct C(Endianness);
impl Context for C { type Error = speedy::Error; fn endianness(&self) -> Endianness { self.0 } }
struct Mark;
impl<'a> Readable<'a, C> for Mark { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, speedy::Error> { r.read_u8()?; r.context_mut().0 = Endianness::BigEndian; Ok(Mark) } }
fn main() { let (_, v) = <(Mark, Vec<u16>)>::read_from_buffer_copying_data_with_ctx(C(Endianness::LittleEndian), &[9, 0, 0, 0, 1, 1, 2]).unwrap(); if v != [0x0102] { std::process::exit(1) } }
''')
