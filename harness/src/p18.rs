//! P18: types of the optional dependencies.
use crate::fam::Fam;
use crate::props::{endian, is_be};
use crate::src::*;
use crate::sx::*;
use crate::val::*;
use chrono::{DateTime, TimeZone, Utc};
use glam::*;
use indexmap_v1 as im1;
use indexmap_v2 as im2;
use smallvec::SmallVec;
use speedy::{Endianness, IsEof, Readable, Writable};
use uuid::Uuid;

macro_rules! vecs { ($($t:ident $c:ident $k:ident $($f:ident)*;)*) => { $(impl Val for $t {
    fn gen() -> Self { $(let $f = <$k as Val>::gen();)* $t::$c($($f),*) }
    fn enc(&self, o: &mut Out) { $(self.$f.enc(o);)* }
})* } }
vecs! {
    Vec2 new f32 x y; Vec3 new f32 x y z; Vec3A new f32 x y z; Vec4 new f32 x y z w; DVec2 new f64 x y; DVec3 new f64 x y z; DVec4 new f64 x y z w;
    IVec2 new i32 x y; IVec3 new i32 x y z; IVec4 new i32 x y z w; UVec2 new u32 x y; UVec3 new u32 x y z; UVec4 new u32 x y z w; Quat from_xyzw f32 x y z w; DQuat from_xyzw f64 x y z w;
}
// one byte: bit 0 is x, bit 1 is y, and so on
macro_rules! masks { ($($t:ident $($f:ident)*;)*) => { $(impl Val for $t {
    fn gen() -> Self { $(let $f = any_bool();)* $t::new($($f),*) }
    fn enc(&self, o: &mut Out) { let mut m = 0u8; let mut i = 0; $(m |= (self.$f as u8) << i; i += 1;)* let _ = i; if o.valid { let mut t = Out::new(false); t.valid = true; $(self.$f.enc(&mut t);)* } o.u8(m) }
})* } }
masks! { BVec2 x y; BVec3 x y z; BVec4 x y z w; }
// column by column
macro_rules! mats { ($($t:ident $k:ident $n:literal |$m:ident| [$($c:expr),*];)*) => { $(impl Val for $t {
    fn gen() -> Self { let a: [$k; $n] = Val::gen(); $t::from_cols_array(&a) }
    fn enc(&self, o: &mut Out) { let $m = self; $($c.enc(o);)* }
})* } }
mats! {
    Mat2 f32 4 |m| [m.x_axis, m.y_axis]; Mat3 f32 9 |m| [m.x_axis, m.y_axis, m.z_axis]; Mat3A f32 9 |m| [m.x_axis, m.y_axis, m.z_axis]; Mat4 f32 16 |m| [m.x_axis, m.y_axis, m.z_axis, m.w_axis];
    DMat2 f64 4 |m| [m.x_axis, m.y_axis]; DMat3 f64 9 |m| [m.x_axis, m.y_axis, m.z_axis]; DMat4 f64 16 |m| [m.x_axis, m.y_axis, m.z_axis, m.w_axis];
    Affine2 f32 6 |m| [m.matrix2, m.translation]; Affine3A f32 12 |m| [m.matrix3, m.translation]; DAffine2 f64 6 |m| [m.matrix2, m.translation]; DAffine3 f64 12 |m| [m.matrix3, m.translation];
}
impl Val for Uuid {
    fn gen() -> Self { Uuid::from_bytes(bytes()) }
    // the 16 bytes in the order in which a UUID is printed, whatever the byte order
    fn enc(&self, o: &mut Out) { o.raw(&self.as_bytes()[..]) }
}
impl<A: smallvec::Array> Val for SmallVec<A> where A::Item: Val {
    fn gen() -> Self { let v: Vec<A::Item> = gen_vec(LEN + 1); let mut s = SmallVec::new(); for x in v { s.push(x) } s }
    fn enc(&self, o: &mut Out) { o.len(self.len()); enc_items(&self[..], o) }
}
macro_rules! index { ($($m:ident)*) => { $(
    impl<K: Val + std::hash::Hash + Eq, V: Val, S: std::hash::BuildHasher + Default> Val for $m::IndexMap<K, V, S> {
        fn gen() -> Self { let n = choose(LEN + 1); let mut m = $m::IndexMap::default(); for _ in 0..n { m.insert(K::gen(), V::gen()); } m }
        fn enc(&self, o: &mut Out) { o.len(self.len()); for (k, v) in self.iter() { k.enc(o); v.enc(o) } }
    }
    impl<K: Val + std::hash::Hash + Eq, S: std::hash::BuildHasher + Default> Val for $m::IndexSet<K, S> {
        fn gen() -> Self { let n = choose(LEN + 1); let mut m = $m::IndexSet::default(); for _ in 0..n { m.insert(K::gen()); } m }
        fn enc(&self, o: &mut Out) { o.len(self.len()); for k in self.iter() { k.enc(o) } }
    }
)* } }
index! { im1 im2 }
pub mod f {
    use super::*;
    crate::fam! {
        V2: Vec2, N: usize = 9; V3: Vec3, N: usize = 13; V3A: Vec3A, N: usize = 13; V4: Vec4, N: usize = 17; DV2: DVec2, N: usize = 17; DV3: DVec3, N: usize = 25; DV4: DVec4, N: usize = 33;
        IV2: IVec2, N: usize = 9; IV3: IVec3, N: usize = 13; IV4: IVec4, N: usize = 17; UV2: UVec2, N: usize = 9; UV3: UVec3, N: usize = 13; UV4: UVec4, N: usize = 17; Q: Quat, N: usize = 17; DQ: DQuat, N: usize = 33;
        BV2: BVec2, N: usize = 2, CANON: bool = false; BV3: BVec3, N: usize = 2, CANON: bool = false; BV4: BVec4, N: usize = 2, CANON: bool = false;
        M2: Mat2, N: usize = 17; M3: Mat3, N: usize = 37; M3A: Mat3A, N: usize = 37; M4: Mat4, N: usize = 65; DM2: DMat2, N: usize = 33; DM3: DMat3, N: usize = 73; DM4: DMat4, N: usize = 129; A2: Affine2, N: usize = 25; A3: Affine3A, N: usize = 49; DA2: DAffine2, N: usize = 49; DA3: DAffine3, N: usize = 97;
        Id: Uuid, N: usize = 17; VecV3: Vec<Vec3>, N: usize = 29; OptM2: Option<Mat2>, N: usize = 18, CANON: bool = false; VecId: Vec<Uuid>, N: usize = 37; Pair: (Uuid, IVec2), N: usize = 25;
        SvU8: SmallVec<[u8; 2]>, N: usize = 8; SvU32: SmallVec<[u32; 1]>, N: usize = 13; SvBool: SmallVec<[bool; 4]>, N: usize = 8, CANON: bool = false; SvStr: SmallVec<[String; 1]>, N: usize = 10; SvV2: SmallVec<[Vec2; 2]>, N: usize = 21; SvSv: SmallVec<[SmallVec<[u16; 1]>; 1]>, N: usize = 12; VecSv: Vec<SmallVec<[u16; 2]>>, N: usize = 12;
        Im1: im1::IndexMap<u8, u16, H>, N: usize = 11, CANON: bool = false; Im2: im2::IndexMap<u8, u16, H>, N: usize = 11, CANON: bool = false; ImS1: im1::IndexMap<String, u8, H>, N: usize = 10, CANON: bool = false; ImS2: im2::IndexMap<String, u8, H>, N: usize = 10, CANON: bool = false;
        Is1: im1::IndexSet<u16, H>, N: usize = 9, CANON: bool = false; Is2: im2::IndexSet<u16, H>, N: usize = 9, CANON: bool = false; IsS1: im1::IndexSet<String, H>, N: usize = 10, CANON: bool = false; IsS2: im2::IndexSet<String, H>, N: usize = 10, CANON: bool = false;
    }
}
macro_rules! with_all { ($m:ident) => { $m! {
    V2 V3 V3A V4 DV2 DV3 DV4 IV2 IV3 IV4 UV2 UV3 UV4 Q DQ BV2 BV3 BV4 M2 M3 M3A M4 DM2 DM3 DM4 A2 A3 DA2 DA3 Id VecV3 OptM2 VecId Pair
    SvU8 SvU32 SvBool SvStr SvV2 SvSv VecSv Im1 Im2 ImS1 ImS2 Is1 Is2 IsS1 IsS2
} } }
macro_rules! by_value { ($($n:ident)*) => { pub mod value { use super::*; crate::entries! { $($n {
    match choose(4) { 0 => crate::props::roundtrip::<f::$n>(), 1 => crate::props::format::<f::$n>(), 2 => crate::props::sizes::<f::$n>(), _ => crate::props::truncated_exact::<f::$n>() }
})* } } } }
macro_rules! by_bytes { ($($n:ident)*) => { pub mod any { use super::*; crate::entries! { $($n {
    match choose(4) { 0 => crate::props::readers::<f::$n>(), 1 => crate::props::robust::<f::$n>(), 2 => crate::props::minimum::<f::$n>(), _ => crate::props::strict::<f::$n>() }
})* } } } }
with_all!(by_value);
with_all!(by_bytes);

// ---------------------------------------------------------------- dates
/// Seconds around moments where something changes (a day, a year, a leap year, the first and last dates), and the fraction.
fn moment() -> (i64, u32) {
    let base = [0i64, 86_300, 951_782_300, 1_709_164_700, -1_000, -62_135_596_900, 253_402_300_700, 8_210_266_876_700, -8_334_601_228_850, i64::MAX - 100, i64::MIN][choose(11)];
    (base.wrapping_add(any_u8() as i64), any_u32())
}
fn want(s: i64, n: u32) -> Option<DateTime<Utc>> { Utc.timestamp_opt(s, n).single() }
fn date_bytes(e: Endianness, s: i64, n: u32) -> Vec<u8> { let mut o = Out::new(is_be(e)); o.u64(s as u64); o.u32(n); o.b }

// ---------------------------------------------------------------- regular expressions
const PATTERNS: &[(&str, bool)] = &[("", true), ("a", true), ("^x+$", true), ("[0-9]{2}", true), ("(a|b)*c", true), ("(", false), ("[", false), ("*", false), ("a{2,1}", false), ("\\", false), ("\u{e9}?", true)];
crate::entries! {
    date_read {
        expect("valid"); expect("invalid"); expect("short");
        let e = endian();
        let (s, n) = moment();
        let b = date_bytes(e, s, n);
        let k = choose(SOURCES);
        let cut = choose(3);
        match read::<_, DateTime<Utc>>(k, e, &b[..12 - [0, 1, 12][cut]]) {
            (Ok(d), used) => {
                cover("valid");
                check(cut == 0, "a date is read from too few bytes");
                if let Some(u) = used { check(u == 12, "the number of bytes consumed is wrong") }
                check(want(s, n) == Some(d), "a date is read wrongly");
                observe(d.timestamp_subsec_nanos() as u64);
            }
            (Err(x), _) => if cut == 0 { cover("invalid"); check(want(s, n).is_none(), "a valid date is rejected"); check(!x.is_eof(), "an invalid date is reported as the end of input") }
                else { cover("short"); check(x.is_eof() || k < 2, "the end of input is reported as another error") },
        }
    }
    date_write {
        expect("written");
        let e = endian();
        let (s, n) = moment();
        if let Some(d) = want(s, n) {
            cover("written");
            check(Writable::<Endianness>::bytes_needed(&d).ok() == Some(12), "the size of a date is wrong");
            match write(choose(SINKS), e, &d) { Ok(b) => check(eq(&b, &date_bytes(e, s, n)), "a date is written wrongly"), Err(_) => check(false, "a date cannot be written") }
        }
    }
    date_any {
        let e = endian();
        let b = byte_vec(choose(12));
        let k = choose(SOURCES);
        match read::<_, DateTime<Utc>>(k, e, &b) { (Ok(_), _) => check(false, "a date is read from too few bytes"), (Err(x), _) => check(x.is_eof() || k < 2, "the end of input is reported as another error") }
    }
    date_wide {
        expect("valid");
        let e = endian();
        // some 250 days around a leap day
        let (s, n) = (any_u8() as i64 * 86_400 + [0, 86_399][choose(2)] + 1_697_932_800, [0, 999_999_999][choose(2)]);
        let b = date_bytes(e, s, n);
        match read::<_, DateTime<Utc>>(choose(2) * 2, e, &b).0 { Ok(d) => { cover("valid"); check(d.timestamp_subsec_nanos() == n && want(s, n) == Some(d), "a date is read wrongly") } Err(_) => check(false, "a valid date is rejected") }
    }
    date_in_vec {
        let e = endian();
        let (s, n) = (any_u8() as i64 + 1_700_000_000, any_u32() % 1_000_000_000);
        let mut o = Out::new(is_be(e)); o.len(2);
        for i in 0..2 { o.u64((s + i) as u64); o.u32(n) }
        match read::<_, Vec<DateTime<Utc>>>(choose(SOURCES), e, &o.b).0 {
            Ok(v) => { check(v.len() == 2 && want(s, n) == Some(v[0]) && want(s + 1, n) == Some(v[1]), "dates are read wrongly"); match write(choose(SINKS), e, &v) { Ok(b) => check(eq(&b, &o.b), "dates are written wrongly"), Err(_) => check(false, "dates cannot be written") } }
            Err(_) => check(false, "valid dates are rejected"),
        }
    }
    regex_values {
        expect("valid"); expect("invalid");
        let e = endian();
        let (p, ok) = PATTERNS[choose(PATTERNS.len())];
        let mut o = Out::new(is_be(e)); o.len(p.len()); o.raw(p.as_bytes());
        let n = o.b.len();
        o.u8(any_u8());
        match read::<_, regex::Regex>(choose(SOURCES), e, &o.b) {
            (Ok(r), used) => {
                cover("valid");
                check(ok && r.as_str() == p, "a regular expression is read wrongly");
                if let Some(u) = used { check(u == n, "the number of bytes consumed is wrong") }
                check(Writable::<Endianness>::bytes_needed(&r).ok() == Some(n), "the size of a regular expression is wrong");
                match write(choose(SINKS), e, &r) { Ok(b) => check(eq(&b, &o.b[..n]), "a regular expression is written wrongly"), Err(_) => check(false, "a regular expression cannot be written") }
            }
            (Err(x), used) => {
                cover("invalid");
                check(!ok, "a valid regular expression is rejected");
                check(!x.is_eof(), "an invalid regular expression is reported as the end of input");
                if let Some(u) = used { check(u == n, "the number of bytes consumed is wrong") }
            }
        }
    }
    /// any length field and text of the byte strings, as long as it is not one that is compiled
    regex_any {
        let e = endian();
        let n = choose(7);
        let mut b = byte_vec(n);
        for i in 4..n { b[i] = [b'a', b'(', 0xFF, b'.'][choose(4)] }
        let k = choose(SOURCES);
        let len = if n < 4 { None } else { let a = [b[0], b[1], b[2], b[3]]; Some(if is_be(e) { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) } as usize) };
        match read::<_, regex::Regex>(k, e, &b).0 {
            Ok(r) => check(len == Some(r.as_str().len()) && eq(r.as_str().as_bytes(), &b[4..4 + r.as_str().len()]), "a regular expression is read wrongly"),
            Err(x) => match len {
                Some(l) if l <= n - 4 => check(!x.is_eof() && b[4..4 + l].iter().any(|c| *c == b'(' || *c == 0xFF), "a valid regular expression is rejected"),
                Some(_) => {}
                None => check(x.is_eof() || k < 2, "the end of input is reported as another error"),
            },
        }
    }
    index_order {
        let e = endian();
        let k: [u8; 3] = bytes(); let v: [u8; 3] = bytes();
        let mut o = Out::new(is_be(e)); o.len(3);
        for i in 0..3 { o.u8(k[i]); o.u8(v[i]) }
        o.u8(1);
        let mut want = im2::IndexMap::<u8, u8, H>::default();
        for i in 0..3 { want.insert(k[i], v[i]); }
        let (a, u1) = read::<_, im1::IndexMap<u8, u8, H>>(choose(SOURCES), e, &o.b);
        let (b, u2) = read::<_, im2::IndexMap<u8, u8, H>>(choose(SOURCES), e, &o.b);
        if let Some(u) = u1 { check(u == 10, "not as many entries are consumed as the count says") }
        if let Some(u) = u2 { check(u == 10, "not as many entries are consumed as the count says") }
        match (a, b) { (Ok(a), Ok(b)) => check(want.iter().eq(a.iter()) && want.iter().eq(b.iter()), "the entries or their order are not those of inserting them one by one"), _ => check(false, "a valid map is rejected") }
        let (a, _) = read::<_, im1::IndexSet<u8, H>>(choose(SOURCES), e, &[&o.b[..4], &k[..]].concat());
        let (b, _) = read::<_, im2::IndexSet<u8, H>>(choose(SOURCES), e, &[&o.b[..4], &k[..]].concat());
        match (a, b) { (Ok(a), Ok(b)) => check(want.keys().eq(a.iter()) && want.keys().eq(b.iter()), "the entries or their order are not those of inserting them one by one"), _ => check(false, "a valid set is rejected") }
    }
}
