#![allow(dead_code, clippy::all)]
pub mod sx;
#[cfg(feature = "native")]
pub mod native;
pub mod val;
#[macro_use] pub mod dt;
pub mod hand;
pub mod fam;
pub mod cat;
pub mod props;
pub mod script;
pub mod src;
pub mod ctx;
#[macro_use] pub mod long;
#[cfg(feature = "p05")] pub mod p05;
#[cfg(feature = "p09")] pub mod p09;
#[cfg(feature = "p10")] pub mod p10;
#[cfg(feature = "p11")] pub mod p11;
#[cfg(feature = "p12")] pub mod p12;
#[cfg(any(feature = "p13a", feature = "p13b"))] pub mod p13;
#[cfg(feature = "p06")] pub mod p06x;
#[cfg(feature = "p14")] pub mod p14;
#[cfg(any(feature = "p15", feature = "p15r", feature = "p15w"))] pub mod p15;
#[cfg(feature = "p16")] pub mod p16;
#[cfg(feature = "p17")] pub mod p17;
#[cfg(feature = "p18")] pub mod p18;
#[cfg(feature = "p19")] pub mod p19;
#[cfg(feature = "p20")] pub mod p20;
#[cfg(any(feature = "p22", feature = "p22c"))] pub mod p22;

macro_rules! per_type { ($($p:ident $feat:literal $f:ident;)*) => {
    $(#[cfg(feature = $feat)] pub mod $p {
        pub mod std { crate::std_catalog!(fam_entries, $f); }
        pub mod dt { crate::dt_catalog!(fam_entries, $f); }
        pub mod gen { crate::gen_catalog!(fam_entries, $f); }
    })*
} }
per_type! { p10c "p10c" placed; p01 "p01" roundtrip; p02 "p02" format; p03 "p03" sizes; p07 "p07" truncated_exact; p15r "p15r" faulty_reads; p15w "p15w" faulty_writes; }
macro_rules! per_arb_type { ($($p:ident $feat:literal $f:ident;)*) => {
    $(#[cfg(feature = $feat)] pub mod $p {
        pub mod std { crate::std_catalog!(fam_entries, $f); }
        pub mod dt { crate::dt_catalog!(fam_entries, $f); }
    })*
} }
per_arb_type! { p04 "p04" readers; p06 "p06" robust; p08 "p08" minimum; p21 "p21" strict; p22c "p22c" contexts; }

#[cfg(feature = "p01l")] pub mod p01l { long_catalog!(roundtrip); }
#[cfg(feature = "p02l")] pub mod p02l { long_catalog!(format); }
#[cfg(feature = "p03l")] pub mod p03l { long_catalog!(sizes); }
#[cfg(feature = "p04l")] pub mod p04l { long_catalog!(readers); }
#[cfg(feature = "p06l")] pub mod p06l { long_catalog!(robust); }
#[cfg(feature = "p07l")] pub mod p07l { long_catalog!(truncated_exact); }
#[cfg(feature = "p21l")] pub mod p21l { long_catalog!(strict); }
#[cfg(feature = "p08l")] pub mod p08l { long_catalog!(minimum); }
#[cfg(feature = "p10l")] pub mod p10l { long_catalog!(placed); }
#[cfg(feature = "p15r")] pub mod p15rl { long_catalog!(faulty_reads); }
#[cfg(feature = "p15w")] pub mod p15wl { long_catalog!(faulty_writes); }
#[cfg(feature = "p22c")] pub mod p22l { long_catalog!(contexts); }

fn tables() -> Vec<&'static [(&'static str, extern "C" fn())]> {
    vec![
        #[cfg(feature = "p01l")] p01l::TABLE,
        #[cfg(feature = "p02l")] p02l::TABLE,
        #[cfg(feature = "p03l")] p03l::TABLE,
        #[cfg(feature = "p04l")] p04l::TABLE,
        #[cfg(feature = "p06l")] p06l::TABLE,
        #[cfg(feature = "p07l")] p07l::TABLE,
        #[cfg(feature = "p21l")] p21l::TABLE,
        #[cfg(feature = "p08l")] p08l::TABLE,
        #[cfg(feature = "p10l")] p10l::TABLE,
        #[cfg(feature = "p15r")] p15rl::TABLE,
        #[cfg(feature = "p15w")] p15wl::TABLE,
        #[cfg(feature = "p22c")] p22l::TABLE,
        #[cfg(feature = "p01")] p01::std::TABLE, #[cfg(feature = "p01")] p01::dt::TABLE, #[cfg(feature = "p01")] p01::gen::TABLE,
        #[cfg(feature = "p02")] p02::std::TABLE, #[cfg(feature = "p02")] p02::dt::TABLE, #[cfg(feature = "p02")] p02::gen::TABLE,
        #[cfg(feature = "p03")] p03::std::TABLE, #[cfg(feature = "p03")] p03::dt::TABLE, #[cfg(feature = "p03")] p03::gen::TABLE,
        #[cfg(feature = "p07")] p07::std::TABLE, #[cfg(feature = "p07")] p07::dt::TABLE, #[cfg(feature = "p07")] p07::gen::TABLE,
        #[cfg(feature = "p04")] p04::std::TABLE, #[cfg(feature = "p04")] p04::dt::TABLE,
        #[cfg(feature = "p06")] p06::std::TABLE, #[cfg(feature = "p06")] p06::dt::TABLE, #[cfg(feature = "p06")] p06x::TABLE,
        #[cfg(feature = "p08")] p08::std::TABLE, #[cfg(feature = "p08")] p08::dt::TABLE,
        #[cfg(feature = "p21")] p21::std::TABLE, #[cfg(feature = "p21")] p21::dt::TABLE,
        #[cfg(feature = "p05")] p05::TABLE,
        #[cfg(feature = "p09")] p09::TABLE,
        #[cfg(feature = "p10")] p10::TABLE,
        #[cfg(feature = "p11")] p11::TABLE,
        #[cfg(feature = "p12")] p12::TABLE,
        #[cfg(feature = "p13a")] p13::one::TABLE, #[cfg(feature = "p13a")] p13::odd::TABLE, #[cfg(feature = "p13b")] p13::many::TABLE,
        #[cfg(feature = "p14")] p14::TABLE, #[cfg(feature = "p14")] p14::large::TABLE,
        #[cfg(feature = "p15")] p15::TABLE,
        #[cfg(feature = "p15r")] p15r::std::TABLE, #[cfg(feature = "p15r")] p15r::dt::TABLE, #[cfg(feature = "p15r")] p15r::gen::TABLE,
        #[cfg(feature = "p15w")] p15w::std::TABLE, #[cfg(feature = "p15w")] p15w::dt::TABLE, #[cfg(feature = "p15w")] p15w::gen::TABLE,
        #[cfg(feature = "p16")] p16::TABLE,
        #[cfg(feature = "p17")] p17::TABLE,
        #[cfg(feature = "p18")] p18::TABLE, #[cfg(feature = "p18")] p18::value::TABLE, #[cfg(feature = "p18")] p18::any::TABLE,
        #[cfg(feature = "p19")] p19::TABLE,
        #[cfg(feature = "p20")] p20::TABLE, #[cfg(feature = "p20")] p20::DERIVED,
        #[cfg(feature = "p22")] p22::TABLE, #[cfg(feature = "p22c")] p22c::std::TABLE, #[cfg(feature = "p22c")] p22c::dt::TABLE,
        #[cfg(feature = "p10c")] p10c::std::TABLE, #[cfg(feature = "p10c")] p10c::dt::TABLE, #[cfg(feature = "p10c")] p10c::gen::TABLE,
    ]
}
#[cfg(feature = "native")]
fn main() { native::run(&tables()) }
#[cfg(not(feature = "native"))]
fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    for t in tables() { for (n, f) in t { if *n == name { f() } } }
}
