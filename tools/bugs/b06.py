ID='ip-tag'; PROP='P21'
NEEDS='an IP address whose tag is neither 0 nor 1'
BREAKS='an unknown tag is taken for an IPv6 address'
EDITS=[('src/readable_impl.rs','''            1 => Ok( core::net::IpAddr::V6( reader.read_value()? ) ),
            _ => Err( crate::error::error_invalid_enum_variant() )''','''            _ => Ok( core::net::IpAddr::V6( reader.read_value()? ) )''')]
DEMO='''use speedy::{Readable, Endianness};
fn main() {
    let mut b = [7u8; 17];
    if std::net::IpAddr::read_from_buffer_with_ctx(Endianness::LittleEndian, &b).is_ok() { std::process::exit(1) }
    b[0] = 1;
    if std::net::IpAddr::read_from_buffer_with_ctx(Endianness::LittleEndian, &b).is_err() { std::process::exit(1) }
}
'''
