From e091889b2436c0591a7122eec1fde1f775d7fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 01/17] fix: undo the zigzag transformation when converting a
 VarInt64 into an i64

---
 src/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 93e7b3c..2f91cdb 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -99,7 +99,7 @@ impl From< VarInt64 > for i64 {
     #[inline]
     fn from( value: VarInt64 ) -> Self {
         let value = value.0;
-        ((value >> 1) ^ (value << 15)) as i64
+        (value >> 1) as i64 ^ -((value & 1) as i64)
     }
 }
 
-- 
2.43.0


From 618c7b88bfc060313f1811204f0a5bb53cae3dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 02/17] fix: peek the bytes after the first one when peeking at
 a multi-byte varint

---
 src/varint.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/varint.rs b/src/varint.rs
index 2f91cdb..b48fb42 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -104,7 +104,7 @@ impl From< VarInt64 > for i64 {
 }
 
 macro_rules! impl_read {
-    ($reader:ident, $read_u8:ident, $read_bytes:ident) => {{
+    ($reader:ident, $read_u8:ident, |$slice:ident| $read_rest:expr) => {{
         let first_byte = $reader.$read_u8()?;
         let length = (!first_byte).leading_zeros();
 
@@ -115,8 +115,8 @@ macro_rules! impl_read {
             ($count:expr) => {{
                 let mut value: u64 = 0;
                 {
-                    let slice = unsafe { core::slice::from_raw_parts_mut( &mut value as *mut u64 as *mut u8, $count ) };
-                    $reader.$read_bytes( slice )?;
+                    let $slice: &mut [u8] = unsafe { core::slice::from_raw_parts_mut( &mut value as *mut u64 as *mut u8, $count ) };
+                    $read_rest
                 }
                 value = value.to_le();
                 Ok( VarInt64( upper_bits | value ) )
@@ -149,7 +149,7 @@ macro_rules! impl_read {
 impl< 'a, C: Context > Readable< 'a, C > for VarInt64 {
     #[inline]
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
-        impl_read!( reader, read_u8, read_bytes )
+        impl_read!( reader, read_u8, |slice| reader.read_bytes( slice )? )
     }
 
     #[inline]
@@ -164,7 +164,13 @@ impl VarInt64 {
         where C: Context,
               R: Reader< 'a, C >
     {
-        impl_read!( reader, peek_u8, peek_bytes )
+        impl_read!( reader, peek_u8, |slice| {
+            // Peeking always starts at the current position, so the first byte is peeked again.
+            let mut buffer = [0_u8; 9];
+            let buffer = &mut buffer[ ..slice.len() + 1 ];
+            reader.peek_bytes( buffer )?;
+            slice.copy_from_slice( &buffer[ 1.. ] );
+        })
     }
 }
 
-- 
2.43.0


From b6031768e04f8202793d1b08bf3cca1cd3dfa9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 03/17] fix: return an error instead of panicking when the
 length of a Vec cannot be allocated

---
 src/reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index eb5febd..381bafe 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -526,10 +526,15 @@ pub trait Reader< 'a, C: Context >: Sized {
             return Err( error_end_of_input() );
         }
 
-        let mut vec = Vec::with_capacity( length );
+        let mut vec = Vec::new();
+        if vec.try_reserve_exact( length ).is_err() {
+            // The length comes from the input, so it can be larger than any input could be.
+            return Err( error_end_of_input() );
+        }
+
         if T::speedy_is_primitive() {
             unsafe {
-                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, vec.capacity() * core::mem::size_of::< T >() )?;
+                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, length * core::mem::size_of::< T >() )?;
                 vec.set_len( length );
             }
 
-- 
2.43.0


From 284202bfdbce4a875ce02d48a074153aa3f761bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 04/17] fix: read every element of a Vec of a zero-sized type

---
 src/reader.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 381bafe..67816d3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -551,12 +551,11 @@ pub trait Reader< 'a, C: Context >: Sized {
             }
 
             let mut p = vec.as_mut_ptr();
-            let e = unsafe { p.add( length ) };
 
             // We deliberately have a separate counter instead
-            // of subtracting pointers as this optimizes better.
+            // of comparing pointers as this also works for zero-sized types.
             let mut count = 0;
-            while p < e {
+            while count < length {
                 let value = match self.read_value() {
                     Ok( value ) => value,
                     Err( error ) => {
-- 
2.43.0


From 474858e3575081f0da8fcdd0020ad36134d5b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 05/17] fix: check the length of a Cow for an overflow

---
 src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 67816d3..6bf1abb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -603,9 +603,10 @@ pub trait Reader< 'a, C: Context >: Sized {
               [T]: ToOwned< Owned = Vec< T > >
     {
         if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
+            let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
+            if let Some( bytes ) = self.read_bytes_borrowed( bytesize ) {
                 let bytes = bytes?;
-                assert_eq!( bytes.len(), length * mem::size_of::< T >() );
+                assert_eq!( bytes.len(), bytesize );
 
                 if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {
                     let slice = unsafe { T::speedy_slice_from_bytes( bytes ) };
-- 
2.43.0


From e7d805afcff33dc86caf7bd2b4d3abaee7c99e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 06/17] fix: return an error instead of panicking when a
 Duration overflows

---
 src/error.rs         | 1 -
 src/readable_impl.rs | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 480f3ba..531ceba 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -199,7 +199,6 @@ pub fn error_zero_non_zero< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::ZeroNonZero ) )
 }
 
-#[cfg(feature = "std")]
 #[cold]
 pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 032b114..2066576 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -562,7 +562,9 @@ impl< 'a, C > Readable< 'a, C > for core::time::Duration where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let secs = reader.read_u64()?;
         let nanos = reader.read_u32()?;
-        Ok( core::time::Duration::new( secs, nanos ) )
+        core::time::Duration::from_secs( secs )
+            .checked_add( core::time::Duration::from_nanos( nanos as u64 ) )
+            .ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From d8631903ebbb96f740218f548a4240965b335df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 07/17] fix: return an error instead of panicking when a
 DateTime is out of range

---
 src/ext_chrono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext_chrono.rs b/src/ext_chrono.rs
index 5397a71..8cfde2a 100644
--- a/src/ext_chrono.rs
+++ b/src/ext_chrono.rs
@@ -20,7 +20,7 @@ impl< 'a, C > Readable< 'a, C > for DateTime< Utc >
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let seconds = reader.read_i64()?;
         let subsec_nanos = reader.read_u32()?;
-        Ok( Utc.timestamp( seconds, subsec_nanos ) )
+        Utc.timestamp_opt( seconds, subsec_nanos ).single().ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From a24916d633add8d16b0c4576e1a81b2a3d45e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 08/17] fix: derive speedy_flip_endianness for transparent
 structs

---
 speedy-derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6dd2f61..12285f8 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2177,6 +2177,13 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                         core::slice::from_raw_parts( slice.as_ptr() as *const Self, slice.len() )
                     }
 
+                    #[inline(always)]
+                    unsafe fn speedy_flip_endianness( itself: *mut Self ) {
+                        unsafe {
+                            <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_flip_endianness( itself as *mut #field_ty );
+                        }
+                    }
+
                     #[inline(always)]
                     fn speedy_convert_slice_endianness( endianness: speedy::Endianness, slice: &mut [Self] ) {
                         unsafe {
-- 
2.43.0


From 90863757f8db856fed3190858264ef002fa14067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 09/17] fix: do not treat transparent and packed structs with
 field attributes as primitive

---
 speedy-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 12285f8..f314464 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2134,10 +2134,10 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
     let can_be_primitive = is_forced || structure.fields.iter().all( |field| field.can_be_primitive() );
     IsPrimitiveResult {
         is_ty_packed,
-        is_ty_transparent,
+        is_ty_transparent: can_be_primitive && is_ty_transparent,
         is_ty_potentially_primitive: can_be_primitive && (is_forced || is_ty_transparent || is_ty_packed || is_ty_c || is_ty_simple || (!uses_generics( &input ) && structure.fields.len() <= 4)),
         check_order,
-        impl_zerocopyable: is_ty_packed || is_ty_transparent || is_forced,
+        impl_zerocopyable: can_be_primitive && (is_ty_packed || is_ty_transparent || is_forced),
         is_forced
     }
 }
-- 
2.43.0


From 9714a2df209989ef10bdf840dad44ed8a15fda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 10/17] fix: do not treat empty structs as primitive

---
 speedy-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index f314464..9972fed 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2054,10 +2054,15 @@ fn min< I >( values: I ) -> TokenStream where I: IntoIterator< Item = TokenStrea
 }
 
 fn generate_is_primitive( fields: &[Field], is_writable: bool, check_order: bool, is_forced: bool ) -> TokenStream {
-    if fields.is_empty() || is_forced {
+    if is_forced {
         return quote! { true };
     }
 
+    if fields.is_empty() {
+        // The fast paths for primitive types do not support zero-sized types.
+        return quote! { false };
+    }
+
     let mut is_primitive = Vec::new();
     let mut fields_size = Vec::new();
     let mut fields_offsets = Vec::new();
-- 
2.43.0


From 1bb5add04f1a3453ae78c7af0a1e22a6d5d9f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 11/17] fix: return an error instead of creating an unaligned
 slice when the input is not aligned

---
 speedy-derive/src/lib.rs     |  6 +++---
 src/error.rs                 |  7 +++++++
 src/private.rs               | 11 +++++++++++
 src/readable_unsized_impl.rs | 11 ++++-------
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 9972fed..099438f 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1580,14 +1580,14 @@ fn read_field_body( field: &Field ) -> TokenStream {
                             .ok_or_else( speedy::private::error_unsized )
                             .and_then( |error| error )
                     })
-                    .map( |slice| unsafe { core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, _length_ ) } )
+                    .and_then( |slice| unsafe { speedy::private::cast_slice( slice, _length_ ) } )
             }}
         } else {
             inner = quote! {{
                 _reader_.read_bytes_borrowed_until_eof()
                     .ok_or_else( speedy::private::error_unsized )
-                    .map( |slice| unsafe {
-                        core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, slice.len() / core::mem::size_of::< #inner_ty >() )
+                    .and_then( |slice| unsafe {
+                        speedy::private::cast_slice( slice, slice.len() / core::mem::size_of::< #inner_ty >() )
                     })
             }}
         }
diff --git a/src/error.rs b/src/error.rs
index 531ceba..0b6bd3e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -32,6 +32,7 @@ pub enum ErrorKind {
 
     Unsized,
     EndiannessMismatch,
+    UnalignedInput,
 
     #[cfg(feature = "std")]
     IoError( std::io::Error )
@@ -103,6 +104,7 @@ impl core::fmt::Display for Error {
             ErrorKind::ExpectedConstant { constant } => write!( fmt, "expected a predefined {} bytes(s) long constant", constant.len() ),
             ErrorKind::Unsized => write!( fmt, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it" ),
             ErrorKind::EndiannessMismatch => write!( fmt, "endianness mismatch" ),
+            ErrorKind::UnalignedInput => write!( fmt, "input is not sufficiently aligned for zero-copy deserialization" ),
 
             #[cfg(feature = "std")]
             ErrorKind::IoError( ref error ) => write!( fmt, "{}", error ),
@@ -219,3 +221,8 @@ pub fn error_unsized< T >() -> T where T: From< Error > {
 pub fn error_endianness_mismatch< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::EndiannessMismatch ) )
 }
+
+#[cold]
+pub fn error_unaligned_input< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::UnalignedInput ) )
+}
diff --git a/src/private.rs b/src/private.rs
index 40076e6..1aaff7a 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -24,6 +24,7 @@ pub use crate::error::{
     error_invalid_str_utf8,
     error_unsized,
     error_endianness_mismatch,
+    error_unaligned_input,
 
     get_error_kind,
 };
@@ -31,6 +32,16 @@ pub use crate::utils::ZeroCopyable;
 
 pub use memoffset::offset_of;
 
+/// Reinterprets raw bytes as a slice of `length` elements, or fails if the bytes are not properly aligned.
+#[inline(always)]
+pub unsafe fn cast_slice< 'a, T, E >( bytes: &'a [u8], length: usize ) -> Result< &'a [T], E > where E: From< crate::Error > {
+    if bytes.as_ptr() as usize % core::mem::align_of::< T >() != 0 {
+        return Err( error_unaligned_input() );
+    }
+
+    Ok( unsafe { core::slice::from_raw_parts( bytes.as_ptr() as *const T, length ) } )
+}
+
 #[cfg(feature = "alloc")]
 #[inline]
 pub fn vec_to_string< E >( bytes: Vec< u8 > ) -> Result< String, E > where E: From< Error > {
diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 1285686..26eade5 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -42,10 +42,7 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
         let length = crate::private::read_length( reader )?;
         let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
         let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe {
-            core::slice::from_raw_parts( bytes.as_ptr() as *const T, length )
-        };
-        Ok( slice )
+        unsafe { crate::private::cast_slice( bytes, length ) }
     }
 
     #[inline]
@@ -55,7 +52,7 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
 }
 
 #[inline(always)]
-unsafe fn cast_slice< T, const N: usize >( slice: &[u8] ) -> &[T; N] {
+unsafe fn cast_slice< T, const N: usize >( slice: &[T] ) -> &[T; N] {
     unsafe {
         &*(slice.as_ptr() as *const [T; N])
     }
@@ -69,8 +66,8 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
         }
 
         let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe { cast_slice( bytes ) };
-        Ok( slice )
+        let slice = unsafe { crate::private::cast_slice( bytes, N )? };
+        Ok( unsafe { cast_slice( slice ) } )
     }
 
     #[inline]
-- 
2.43.0


From 6b4fc618c7c67f3af18b0e8608a134959ec1cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 12/17] fix: retry an interrupted read when reading from a
 stream through the buffer

---
 src/readable.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/readable.rs b/src/readable.rs
index d6d130a..4163ef5 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -296,6 +296,17 @@ struct StreamReader< C: Context, S: Read > {
     is_buffering: bool
 }
 
+/// Reads from the stream, and tries again if it was interrupted, just like `Read::read_exact` does.
+#[cfg(feature = "std")]
+fn read_uninterrupted( reader: &mut impl Read, chunk: &mut [u8] ) -> std::io::Result< usize > {
+    loop {
+        match reader.read( chunk ) {
+            Err( error ) if error.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result
+        }
+    }
+}
+
 #[cfg(feature = "std")]
 impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
     #[inline(never)]
@@ -304,7 +315,7 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             let reader = &mut self.reader;
             while self.buffer.len() < self.buffer.capacity() {
                 let bytes_written = self.buffer.try_append_with( self.buffer.capacity() - self.buffer.len(), |chunk| {
-                    reader.read( chunk )
+                    read_uninterrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
@@ -363,7 +374,7 @@ impl< 'a, C: Context, S: Read > Reader< 'a, C > for StreamReader< C, S > {
                 }
 
                 let bytes_written = self.buffer.try_append_with( chunk_size, |chunk| {
-                    reader.read( chunk )
+                    read_uninterrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
-- 
2.43.0


From 5948bed8d1c19389391c42eb06b418be2388b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 13/17] fix: report errors from flushing the file in
 write_to_file

---
 src/writable.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/writable.rs b/src/writable.rs
index 716fce8..192d731 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -236,8 +236,12 @@ pub trait Writable< C: Context > {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
         })?;
-        let stream = io::BufWriter::new( stream );
-        self.write_to_stream_with_ctx( context, stream )
+        let mut stream = io::BufWriter::new( stream );
+        self.write_to_stream_with_ctx( context, &mut stream )?;
+        stream.flush().map_err( |error| {
+            let error = Error::from_io_error( error );
+            <C::Error as From< Error >>::from( error )
+        })
     }
 
     #[inline]
-- 
2.43.0


From ccf35ffd2346c2a37cfebcf872a14010d9c3da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 14/17] fix: an optional field with default_on_eof is its
 default when the input ends within its length

---
 speedy-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 099438f..ba38b09 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1423,7 +1423,8 @@ fn read_field_body( field: &Field ) -> TokenStream {
                 speedy::private::#read_length_fn( _reader_ )
             };
 
-            if field.default_on_eof {
+            // For an `Option` this is within a closure, so an EOF here is going to be handled along with the rest of the field.
+            if field.default_on_eof && !matches!( field.ty, Opt::Option( _ ) ) {
                 Some( default_on_eof_body( body ) )
             } else {
                 Some( quote! { #body? } )
-- 
2.43.0


From aa09d5c082925e761f986deff495f21ad2ef3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 15/17] fix: derive(Writable) compiles for enum variants with
 skipped fields

---
 speedy-derive/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index ba38b09..7af3a5c 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1816,22 +1816,27 @@ fn write_field_body( field: &Field ) -> TokenStream {
 }
 
 fn writable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream) {
-    let mut field_names = Vec::new();
+    let mut field_patterns = Vec::new();
     let mut field_writers = Vec::new();
     for field in &st.fields {
+        let name = field.var_name();
         if field.skip {
+            field_patterns.push( match st.kind {
+                StructKind::Named => quote! { #name: _ },
+                StructKind::Unit | StructKind::Unnamed => quote! { _ }
+            });
             continue;
         }
 
         let write_value = write_field_body( &field );
         types.extend( field.bound_types() );
 
-        field_names.push( field.var_name().clone() );
+        field_patterns.push( quote! { ref #name } );
         field_writers.push( write_value );
     }
 
     let body = quote! { #(#field_writers)* };
-    let initializer = quote! { #(ref #field_names),* };
+    let initializer = quote! { #(#field_patterns),* };
     let initializer = match st.kind {
         StructKind::Unit => initializer,
         StructKind::Unnamed => quote! { ( #initializer ) },
-- 
2.43.0


From ab4820a305efdcfbf1d5b3428008024505e19ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 16/17] fix: packed structs qualify for bulk transfer only when
 their fields are in declared order

repr(packed) alone does not promise the order of the fields; without repr(C) it
has to be checked just like it is for the default representation.
---
 speedy-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 7af3a5c..a0afa82 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2132,7 +2132,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
     let is_ty_transparent = structure.fields.len() == 1 && is_transparent( &input.attrs );
     let is_ty_c = is_c( &input.attrs );
     let is_ty_simple = structure.fields.iter().all( |field| field.is_simple() );
-    let check_order = !is_ty_transparent && !is_ty_packed && !is_ty_c;
+    let check_order = !is_ty_transparent && !is_ty_c;
 
     let mut is_forced = false;
     match attrs.is_primitive {
-- 
2.43.0


From 5aaebb93a4b7996eeb4c74288002ad623fcc402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 17/17] fix: the pairs of a map are read in a fixed order of
 fields

repr(packed) alone lets the compiler swap the key and the value.
---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 6bf1abb..e25f018 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -670,7 +670,7 @@ pub trait Reader< 'a, C: Context >: Sized {
               K: Readable< 'a, C >,
               V: Readable< 'a, C >
     {
-        #[repr(packed)]
+        #[repr(C, packed)]
         struct Pair< K, V >( K, V );
 
         if K::speedy_is_primitive() && V::speedy_is_primitive() && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
-- 
2.43.0

