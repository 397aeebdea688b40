//! Catalogue of type families: `Fam::T<'a>` is the type under test.
use crate::val::*;
use speedy::{Endianness, Readable, Writable};

pub trait Fam {
    type T<'a>: Val + Readable<'a, Endianness> + Writable<Endianness> + Readable<'a, crate::ctx::Cx> + Writable<crate::ctx::Cx>;
    /// readable from every kind of source (false: only from a borrowed buffer)
    const STREAM: bool = true;
    /// every accepted input is the encoding of the value it decodes to
    const CANON: bool = true;
    /// a collection whose length is an expression: repeated keys make it shorter than its length field
    const LOSSY: bool = false;
    /// an encoding's end is determined by its content (false: reads until the end of input)
    const EXACT: bool = true;
    /// the end of input in the middle of a value is not an error (`default_on_eof`): what happens to
    /// the bytes of a field that is cut short is then not specified
    const CUT: bool = false;
    /// false: hashed with the standard library's randomly seeded hasher, so that the order of the bytes differs between runs
    const ORDERED: bool = true;
    /// large values: a symbolic key would be compared with too many others
    const KEYED: bool = false;
    /// an upper bound used when reading arbitrary bytes
    const N: usize = 8;
    /// any value
    fn gen<'a>() -> Self::T<'a> { Self::T::gen() }
}
#[macro_export]
macro_rules! fam {
    ($($n:ident : $t:ty $(, $k:ident : $kt:ty = $v:expr)*;)*) => { $(
        pub struct $n;
        impl $crate::fam::Fam for $n { type T<'a> = $t; $(const $k: $kt = $v;)* }
    )* };
}
