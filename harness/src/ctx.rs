//! A user-defined context with state and an error type of its own.
use speedy::{Context, Endianness, IsEof};
/// An error type of the user's.
pub enum Bad { Lib(speedy::Error), User(u8), End }
impl From<speedy::Error> for Bad { fn from(e: speedy::Error) -> Bad { Bad::Lib(e) } }
impl IsEof for Bad { fn is_eof(&self) -> bool { match self { Bad::Lib(e) => e.is_eof(), Bad::User(_) => false, Bad::End => true } } }
/// A context with state.
pub struct Cx { pub e: Endianness, pub n: usize }
impl Cx { pub fn new(e: Endianness) -> Cx { Cx { e, n: 0 } } }
impl Context for Cx {
    type Error = Bad;
    fn endianness(&self) -> Endianness { self.e }
}

