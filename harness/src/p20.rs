//! P20: maps and sets: count, order, duplicates.
use crate::props::{endian, is_be};
use crate::src::*;
use crate::sx::*;
use crate::val::*;
use speedy::{Endianness, IsEof, Readable, Writable};
use std::borrow::Cow;
use std::collections::*;

#[cfg(feature = "thorough")]
const MAX: usize = 4;
#[cfg(not(feature = "thorough"))]
const MAX: usize = 3;

/// What is in a collection: keys of maps and sets, with the values of maps.
pub trait Entry: Clone {
    fn any() -> Self;
    fn put(&self, o: &mut Out);
    fn same_key(&self, x: &Self) -> bool;
    fn same(&self, x: &Self) -> bool;
}
/// A key or value: any, or (`Few`) one of three, for the standard library's own hash function.
pub trait Part: Clone + Ord + std::hash::Hash { fn any() -> Self; fn few() -> Self { Self::any() } fn put(&self, o: &mut Out); }
macro_rules! parts { ($($t:ty, $few:expr;)*) => { $(impl Part for $t {
    fn any() -> Self { <$t as Val>::gen() }
    fn few() -> Self { $few }
    fn put(&self, o: &mut Out) { self.enc(o) }
})* } }
parts! { u8, [0, 7, 255][choose(3)]; u16, [0, 0x0102, 0x0201][choose(3)]; i32, [0, -1, 0x0102][choose(3)]; bool, choose(2) == 1; (u8, bool), (choose(2) as u8, choose(2) == 1); Option<u8>, [None, Some(0), Some(9)][choose(3)]; u64, [1, 2, 1 << 40][choose(3)]; [u8; 2], [[0, 1], [1, 0], [1, 1]][choose(3)]; }
impl Part for String {
    fn any() -> Self { let n = choose(2); let b = byte_vec(n); for x in &b { assume(*x < 0x80) } String::from_utf8(b).unwrap_or_default() }
    fn few() -> Self { ["", "a", "bc"][choose(3)].into() }
    fn put(&self, o: &mut Out) { o.len(self.len()); o.raw(self.as_bytes()) }
}
impl Part for Vec<u8> { fn any() -> Self { let n = choose(2); byte_vec(n) } fn put(&self, o: &mut Out) { o.len(self.len()); o.raw(self) } }
#[derive(Clone)] pub struct One<K>(pub K);
#[derive(Clone)] pub struct Two<K, V>(pub K, pub V);
#[derive(Clone)] pub struct OneFew<K>(pub K);
#[derive(Clone)] pub struct TwoFew<K, V>(pub K, pub V);
macro_rules! entry { ($n:ident $k:ident) => { impl<K: Part> Entry for $n<K> { fn any() -> Self { $n(K::$k()) } fn put(&self, o: &mut Out) { self.0.put(o) } fn same_key(&self, x: &Self) -> bool { self.0 == x.0 } fn same(&self, x: &Self) -> bool { self.0 == x.0 } } } }
entry!(One any); entry!(OneFew few);
macro_rules! entry2 { ($n:ident $k:ident) => { impl<K: Part, V: Part> Entry for $n<K, V> { fn any() -> Self { $n(K::$k(), V::any()) } fn put(&self, o: &mut Out) { self.0.put(o); self.1.put(o) } fn same_key(&self, x: &Self) -> bool { self.0 == x.0 } fn same(&self, x: &Self) -> bool { self.0 == x.0 && self.1 == x.1 } } } }
entry2!(Two any); entry2!(TwoFew few);
/// A collection.
pub trait Coll: Sized {
    type E: Entry;
    const SORTED: bool = false;
    fn empty() -> Self;
    fn add(&mut self, e: &Self::E);
    fn list(&self) -> Vec<Self::E>;
    fn before(_: &Self::E, _: &Self::E) -> bool { true }
}
macro_rules! coll { ($([$($g:tt)*] $t:ty, $e:ty, $empty:expr, |$s:ident, $x:ident| $add:expr, |$l:ident| $list:expr $(, |$a:ident, $b:ident| $before:expr)?;)*) => { $(impl<$($g)*> Coll for $t {
    type E = $e;
    fn empty() -> Self { $empty }
    fn add(&mut self, $x: &$e) { let $s = self; $add; }
    fn list(&self) -> Vec<$e> { let $l = self; $list }
    $(const SORTED: bool = true; fn before($a: &$e, $b: &$e) -> bool { $before })?
})* } }
coll! {
    [K: Part] BTreeSet<K>, One<K>, BTreeSet::new(), |s, x| s.insert(x.0.clone()), |s| s.iter().map(|x| One(x.clone())).collect(), |a, b| a.0 < b.0;
    [K: Part, V: Part] BTreeMap<K, V>, Two<K, V>, BTreeMap::new(), |s, x| s.insert(x.0.clone(), x.1.clone()), |s| s.iter().map(|(x, y)| Two(x.clone(), y.clone())).collect(), |a, b| a.0 < b.0;
    [K: Part] HashSet<K, H>, One<K>, HashSet::default(), |s, x| s.insert(x.0.clone()), |s| s.iter().map(|x| One(x.clone())).collect();
    [K: Part, V: Part] HashMap<K, V, H>, Two<K, V>, HashMap::default(), |s, x| s.insert(x.0.clone(), x.1.clone()), |s| s.iter().map(|(x, y)| Two(x.clone(), y.clone())).collect();
    [K: Part] HashSet<K>, OneFew<K>, HashSet::new(), |s, x| s.insert(x.0.clone()), |s| s.iter().map(|x| OneFew(x.clone())).collect();
    [K: Part, V: Part] HashMap<K, V>, TwoFew<K, V>, HashMap::new(), |s, x| s.insert(x.0.clone(), x.1.clone()), |s| s.iter().map(|(x, y)| TwoFew(x.clone(), y.clone())).collect();
    ['a, K: Part] Cow<'a, BTreeSet<K>>, One<K>, Cow::Owned(BTreeSet::new()), |s, x| s.to_mut().insert(x.0.clone()), |s| s.iter().map(|x| One(x.clone())).collect(), |a, b| a.0 < b.0;
    ['a, K: Part, V: Part] Cow<'a, BTreeMap<K, V>>, Two<K, V>, Cow::Owned(BTreeMap::new()), |s, x| s.to_mut().insert(x.0.clone(), x.1.clone()), |s| s.iter().map(|(x, y)| Two(x.clone(), y.clone())).collect(), |a, b| a.0 < b.0;
    ['a, K: Part] Cow<'a, HashSet<K>>, OneFew<K>, Cow::Owned(HashSet::new()), |s, x| s.to_mut().insert(x.0.clone()), |s| s.iter().map(|x| OneFew(x.clone())).collect();
    ['a, K: Part, V: Part] Cow<'a, HashMap<K, V>>, TwoFew<K, V>, Cow::Owned(HashMap::new()), |s, x| s.to_mut().insert(x.0.clone(), x.1.clone()), |s| s.iter().map(|(x, y)| TwoFew(x.clone(), y.clone())).collect();
}
/// How the number of elements is written.
#[derive(Copy, Clone, PartialEq)]
pub enum Ln { Plain, B1, B2, B8, Var, Field, End }
/// A value that is, or has, a collection.
pub trait Holds: Sized {
    type C: Coll;
    const LN: Ln = Ln::Plain;
    /// a byte behind the collection
    const TAIL: bool = false;
    fn wrap(n: usize, c: Self::C) -> Self;
    fn take(self) -> (Option<usize>, Self::C);
}
fn count(l: Ln, n: usize, o: &mut Out) { match l { Ln::Plain => o.len(n), Ln::B1 | Ln::Field => o.u8(n as u8), Ln::B2 => o.u16(n as u16), Ln::B8 => o.u64(n as u64), Ln::Var => o.varint(n as u64), Ln::End => {} } }
const T: u8 = 0xA5;

/// The result of reading any entries is that of inserting them one by one.
fn reads<S: Holds + Readable<'static, Endianness>>() {
    expect("read"); expect("duplicate"); expect("short");
    let e = endian();
    let n = choose(MAX + 1);
    let entries: Vec<<S::C as Coll>::E> = (0..n).map(|_| Entry::any()).collect();
    let mut o = Out::new(is_be(e));
    count(S::LN, n, &mut o);
    for x in &entries { x.put(&mut o) }
    let size = o.b.len();
    let d = choose(3);
    let tail = any_u8();
    if S::TAIL { o.u8(T) }
    let mut want = o.b.len();
    if d == 1 {
        // the last byte is missing
        if S::LN == Ln::End || want == 0 { return }
        want -= 1;
        o.b.truncate(want);
    }
    if d == 2 { if S::LN == Ln::End { return } o.u8(tail) }
    let _ = size;
    let b: &'static [u8] = o.b.leak();
    let k = choose(SOURCES);
    let (r, used) = read::<_, S>(k, e, b);
    match r {
        Ok(v) => {
            cover("read");
            check(d != 1, "a collection is read from an input that ends within it");
            if let Some(u) = used { check(u == want || S::LN == Ln::End && u >= want, "not as many entries are consumed as the count says") }
            let (len, c) = v.take();
            if let Some(l) = len { check(l == n, "the count has changed") }
            let mut by_hand = S::C::empty();
            for x in &entries { by_hand.add(x) }
            let (got, by_hand) = (c.list(), by_hand.list());
            // how many different keys there are, and the last entry of each
            let mut distinct = 0;
            for i in 0..n {
                if entries[..i].iter().any(|x| x.same_key(&entries[i])) { cover("duplicate") } else { distinct += 1 }
                if !entries[i + 1..].iter().any(|x| x.same_key(&entries[i])) { check(got.iter().any(|x| x.same(&entries[i])), "an entry is missing, or a later duplicate has not replaced it") }
            }
            check(got.len() == distinct && by_hand.len() == distinct, "the number of entries is wrong");
            for x in &by_hand { check(got.iter().any(|y| y.same(x)), "the result is not that of inserting the entries one by one") }
            if S::C::SORTED { for i in 1..got.len() { check(S::C::before(&got[i - 1], &got[i]), "the entries are not in order") } }
            observe(got.len() as u64);
        }
        Err(x) => { cover("short"); check(d == 1, "a valid collection is rejected"); check(x.is_eof() || k < 2 && want < S::minimum_bytes_needed(), "the end of input is reported as another error") }
    }
    if S::LN == Ln::End || n == 0 && !S::TAIL && S::LN == Ln::End { cover("short") }
}
const SIZES: &[usize] = if cfg!(feature = "thorough") { &[17, 200, 1025] } else { &[17, 200] };
/// Many entries, with keys that are repeated or in another order, and two values that can be anything.
fn many<S: Coll<E = Two<u16, u16>> + Readable<'static, Endianness> + Writable<Endianness>>() {
    expect("read");
    let e = endian();
    let n = SIZES[choose(SIZES.len())];
    let m = [1usize, 7, 1000][choose(3)];
    let order = choose(3);
    let (i, j) = [(0, n - 2), (n / 2, n - 1)][choose(2)];
    let (x, y) = (any_u16(), any_u16());
    let mut o = Out::new(is_be(e));
    o.len(n);
    let mut by_hand: BTreeMap<u16, u16> = BTreeMap::new();
    for a in 0..n {
        let k = match order { 0 => a % m, 1 => (n - a) % m, _ => a * 7919 % n / if m < 7 { 2 } else { 1 } } as u16;
        let v = if a == i { x } else if a == j { y } else { a as u16 ^ 0x5500 };
        o.u16(k);
        o.u16(v);
        by_hand.insert(k, v);
    }
    let size = o.b.len();
    o.u16(0xFFFF);
    let b: &'static [u8] = o.b.leak();
    match read::<_, S>(choose(SOURCES), e, b) {
        (Ok(c), used) => {
            cover("read");
            if let Some(u) = used { check(u == size, "not as many entries are consumed as the count says") }
            let l = c.list();
            check(l.len() == by_hand.len(), "the number of entries is wrong");
            for x in &l { check(by_hand.get(&x.0) == Some(&x.1), "the result is not that of inserting the entries one by one") }
            let mut o = Out::new(is_be(e));
            o.len(l.len());
            for x in &l { x.put(&mut o) }
            match write(choose(SINKS), e, &c) { Ok(w) => check(eq(&w, &o.b), "a collection is not written as its count and its elements in order"), Err(_) => check(false, "a collection cannot be written") }
        }
        _ => check(false, "a valid collection is rejected"),
    }
}
/// Many different elements, in another order, some of them repeated.
fn many_set<K: Part + From<u16>, S: Coll<E = One<K>> + Readable<'static, Endianness> + Writable<Endianness>>() {
    expect("read");
    let e = endian();
    const CASES: &[(usize, usize)] = if cfg!(feature = "thorough") { &[(1025, 0), (1025, 1), (1400, 2), (1400, 1), (500, 1)] } else { &[(1100, 1), (1400, 2)] };
    let (n, order) = CASES[choose(CASES.len())];
    let mut o = Out::new(is_be(e));
    o.len(n);
    let mut seen = vec![false; n];
    let mut distinct = 0;
    for a in 0..n {
        let k = match order { 0 => a, 1 => a * 7919 % n, _ => a / 2 };
        if !seen[k] { seen[k] = true; distinct += 1 }
        K::from(k as u16).put(&mut o);
    }
    let size = o.b.len();
    let last = any_u8();
    o.u8(last);
    let b: &'static [u8] = o.b.leak();
    match read::<_, S>(choose(SOURCES), e, b) {
        (Ok(c), used) => {
            cover("read");
            if let Some(u) = used { check(u == size, "not as many entries are consumed as the count says") }
            let l = c.list();
            check(l.len() == distinct, "the number of entries is wrong");
            for x in &l {
                let mut o = Out::new(false);
                x.put(&mut o);
                let k = o.b[0] as usize | (o.b[1] as usize) << 8;
                check(k < n && seen[k] && x.0 == K::from(k as u16), "an element is wrong or repeated");
                seen[k] = false;
            }
            observe(last as u64);
            let mut o = Out::new(is_be(e));
            o.len(l.len());
            for x in &l { x.put(&mut o) }
            match write(choose(SINKS), e, &c) { Ok(w) => check(eq(&w, &o.b), "a collection is not written as its count and its elements in order"), Err(_) => check(false, "a collection cannot be written") }
        }
        _ => check(false, "a valid collection is rejected"),
    }
}
/// A collection is written as its count and its elements, in iteration order.
fn writes<S: Holds + Writable<Endianness>>() {
    expect("written");
    let e = endian();
    let n = choose(MAX + 1);
    let mut c = S::C::empty();
    for _ in 0..n { c.add(&Entry::any()) }
    let l = c.list();
    let mut o = Out::new(is_be(e));
    count(S::LN, l.len(), &mut o);
    for x in &l { x.put(&mut o) }
    if S::TAIL { o.u8(T) }
    let v = S::wrap(l.len(), c);
    match Writable::<Endianness>::bytes_needed(&v) { Ok(x) => check(x == o.b.len(), "the size of a collection is wrong"), Err(_) => check(false, "the size of a collection is unknown") }
    match write(choose(SINKS), e, &v) {
        Ok(b) => { cover("written"); observe(b.len() as u64); check(eq(&b, &o.b), "a collection is not written as its count and its elements in order") }
        Err(_) => check(false, "a collection cannot be written"),
    }
}
macro_rules! plain { ($([$($g:tt)*] $t:ty;)*) => { $(impl<$($g)*> Holds for $t { type C = $t; fn wrap(_: usize, c: $t) -> Self { c } fn take(self) -> (Option<usize>, $t) { (None, self) } })* } }
plain! { [K: Part] BTreeSet<K>; [K: Part, V: Part] BTreeMap<K, V>; [K: Part] HashSet<K, H>; [K: Part, V: Part] HashMap<K, V, H>; [K: Part] HashSet<K>; [K: Part, V: Part] HashMap<K, V>; ['a, K: Part] Cow<'a, BTreeSet<K>>; ['a, K: Part, V: Part] Cow<'a, BTreeMap<K, V>>; ['a, K: Part] Cow<'a, HashSet<K>>; ['a, K: Part, V: Part] Cow<'a, HashMap<K, V>>; }
macro_rules! held { ($($n:ident [$($g:tt)*] $ln:ident [$($a:tt)*] [$($t:tt)*];)*) => { $(held! { @ $n [$($g)*] $ln [$($a)*] [$($t)*] })* };
    (@ $n:ident [] $ln:ident [$($a:tt)*] [$($t:tt)*]) => { held! { @@ $n [] [] [$n] $ln [$($a)*] [$($t)*] } };
    (@ $n:ident ['a] $ln:ident [$($a:tt)*] [$($t:tt)*]) => { held! { @@ $n [<'a>] ['a] [$n<'a>] $ln [$($a)*] [$($t)*] } };
    (@@ $n:ident [$($p:tt)*] [$($g:tt)*] [$s:ty] Field [$($a:tt)*] [$($t:tt)*]) => {
        #[derive(Readable, Writable)] pub struct $n $($p)* { n: u8, #[speedy(length = n)] c: $($t)*, t: u8 }
        impl<$($g)*> Holds for $s { type C = $($t)*; const LN: Ln = Ln::Field; const TAIL: bool = true; fn wrap(n: usize, c: $($t)*) -> Self { $n { n: n as u8, c, t: T } } fn take(self) -> (Option<usize>, $($t)*) { check(self.t == T, "what is behind a collection is read wrongly"); (Some(self.n as usize), self.c) } }
    };
    (@@ $n:ident [$($p:tt)*] [$($g:tt)*] [$s:ty] End [$($a:tt)*] [$($t:tt)*]) => {
        #[derive(Readable, Writable)] pub struct $n $($p)* { #[speedy(length = ..)] c: $($t)* }
        impl<$($g)*> Holds for $s { type C = $($t)*; const LN: Ln = Ln::End; fn wrap(_: usize, c: $($t)*) -> Self { $n { c } } fn take(self) -> (Option<usize>, $($t)*) { (None, self.c) } }
    };
    (@@ $n:ident [$($p:tt)*] [$($g:tt)*] [$s:ty] $ln:ident [$($a:tt)*] [$($t:tt)*]) => {
        #[derive(Readable, Writable)] pub struct $n $($p)* { $($a)* c: $($t)*, t: u8 }
        impl<$($g)*> Holds for $s { type C = $($t)*; const LN: Ln = Ln::$ln; const TAIL: bool = true; fn wrap(_: usize, c: $($t)*) -> Self { $n { c, t: T } } fn take(self) -> (Option<usize>, $($t)*) { check(self.t == T, "what is behind a collection is read wrongly"); (None, self.c) } }
    };
}
macro_rules! kinds { ($($bs:ident $bm:ident $hs:ident $hm:ident $cbs:ident $cbm:ident $chs:ident $chm:ident: $ln:ident [$($a:tt)*];)*) => { $(held! {
    $bs [] $ln [$($a)*] [BTreeSet<u16>]; $bm [] $ln [$($a)*] [BTreeMap<u8, u16>]; $hs [] $ln [$($a)*] [HashSet<u16>]; $hm [] $ln [$($a)*] [HashMap<u8, u16>];
    $cbs ['a] $ln [$($a)*] [Cow<'a, BTreeSet<u16>>]; $cbm ['a] $ln [$($a)*] [Cow<'a, BTreeMap<u16, u8>>]; $chs ['a] $ln [$($a)*] [Cow<'a, HashSet<u16>>]; $chm ['a] $ln [$($a)*] [Cow<'a, HashMap<u16, u8>>];
})* } }
kinds! {
    BsP BmP HsP HmP CbsP CbmP ChsP ChmP: Plain [];
    Bs7 Bm7 Hs7 Hm7 Cbs7 Cbm7 Chs7 Chm7: B1 [#[speedy(length_type = u7)]];
    Bs8 Bm8 Hs8 Hm8 Cbs8 Cbm8 Chs8 Chm8: B1 [#[speedy(length_type = u8)]];
    Bs16 Bm16 Hs16 Hm16 Cbs16 Cbm16 Chs16 Chm16: B2 [#[speedy(length_type = u16)]];
    Bs64 Bm64 Hs64 Hm64 Cbs64 Cbm64 Chs64 Chm64: B8 [#[speedy(length_type = u64)]];
    BsV BmV HsV HmV CbsV CbmV ChsV ChmV: Var [#[speedy(length_type = u64_varint)]];
    BsF BmF HsF HmF CbsF CbmF ChsF ChmF: Field [];
    BsE BmE HsE HmE CbsE CbmE ChsE ChmE: End [];
}
macro_rules! all { ($($r:ident $w:ident $t:ty;)* @ $($d:ident)*) => { crate::entries! {
    many_bmap { many::<BTreeMap<u16, u16>>() } many_hmap { many::<HashMap<u16, u16, H>>() } many_cbmap { many::<Cow<'static, BTreeMap<u16, u16>>>() }
    many_bset16 { many_set::<u16, BTreeSet<u16>>() } many_hset16 { many_set::<u16, HashSet<u16, H>>() } many_bset64 { many_set::<u64, BTreeSet<u64>>() } many_cbset { many_set::<i32, Cow<'static, BTreeSet<i32>>>() }
    $($r { reads::<$t>() } $w { writes::<$t>() })*
} mod derived { use super::*; crate::entries! { $($d { if choose(2) == 0 { reads::<$d>() } else { writes::<$d>() } })* } } pub const DERIVED: &[(&str, extern "C" fn())] = derived::TABLE; } }
all! {
    r_bset_u8 w_bset_u8 BTreeSet<u8>; r_bset_i32 w_bset_i32 BTreeSet<i32>; r_bset_bool w_bset_bool BTreeSet<bool>; r_bset_str w_bset_str BTreeSet<String>; r_bset_pair w_bset_pair BTreeSet<(u8, bool)>; r_bset_opt w_bset_opt BTreeSet<Option<u8>>; r_bset_arr w_bset_arr BTreeSet<[u8; 2]>; r_bset_u64 w_bset_u64 BTreeSet<u64>;
    r_bmap_u8 w_bmap_u8 BTreeMap<u8, u8>; r_bmap_u16 w_bmap_u16 BTreeMap<u16, u64>; r_bmap_str w_bmap_str BTreeMap<String, u16>; r_bmap_vec w_bmap_vec BTreeMap<u8, Vec<u8>>; r_bmap_strs w_bmap_strs BTreeMap<u8, String>; r_bmap_pair w_bmap_pair BTreeMap<(u8, bool), Option<u8>>;
    r_hset_u8 w_hset_u8 HashSet<u8, H>; r_hset_u16 w_hset_u16 HashSet<u16, H>; r_hset_str w_hset_str HashSet<String, H>; r_hset_pair w_hset_pair HashSet<(u8, bool), H>; r_hset_opt w_hset_opt HashSet<Option<u8>, H>;
    r_hmap_u8 w_hmap_u8 HashMap<u8, u8, H>; r_hmap_u16 w_hmap_u16 HashMap<u16, u16, H>; r_hmap_str w_hmap_str HashMap<String, u8, H>; r_hmap_vec w_hmap_vec HashMap<u8, Vec<u8>, H>;
    r_set_u8 w_set_u8 HashSet<u8>; r_set_str w_set_str HashSet<String>; r_map_u16 w_map_u16 HashMap<u16, u16>; r_map_str w_map_str HashMap<String, u8>;
    r_cbset w_cbset Cow<'static, BTreeSet<u16>>; r_cbmap w_cbmap Cow<'static, BTreeMap<u16, u16>>; r_cbmaps w_cbmaps Cow<'static, BTreeMap<u8, String>>; r_chset w_chset Cow<'static, HashSet<u16>>; r_chmap w_chmap Cow<'static, HashMap<u16, u8>>;
    @ BsP BmP HsP HmP CbsP CbmP ChsP ChmP Bs7 Bm7 Hs7 Hm7 Cbs7 Cbm7 Chs7 Chm7 Bs8 Bm8 Hs8 Hm8 Cbs8 Cbm8 Chs8 Chm8 Bs16 Bm16 Hs16 Hm16 Cbs16 Cbm16 Chs16 Chm16 Bs64 Bm64 Hs64 Hm64 Cbs64 Cbm64 Chs64 Chm64 BsV BmV HsV HmV CbsV CbmV ChsV ChmV BsF BmF HsF HmF CbsF CbmF ChsF ChmF BsE BmE HsE HmE CbsE CbmE ChsE ChmE
}
