//! Types that implement `Readable` and `Writable` by hand, with the operations of `Reader` and `Writer` that no derived type uses.
use crate::sx::*;
use crate::val::*;
use speedy::{Context, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::collections::*;

fn fail<C: Context>(what: &'static str) -> C::Error { speedy::Error::custom(what).into() }
const ZEROS: [u8; 8] = [0; 8];

/// padding that is skipped over
pub struct HSkip { n: u8, m: u8, x: u16 }
impl<'a, C: Context> Readable<'a, C> for HSkip {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let n = r.read_u8()?;
        r.skip_bytes(n as usize)?;
        let m = r.read_u8()?;
        let x = r.read_u16()?;
        r.skip_bytes((m & 1) as usize)?;
        Ok(HSkip { n, m, x })
    }
    fn minimum_bytes_needed() -> usize { 4 }
}
impl<C: Context> Writable<C> for HSkip {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        w.write_u8(self.n)?;
        w.write_bytes(&ZEROS[..self.n as usize])?;
        w.write_u8(self.m)?;
        w.write_u16(self.x)?;
        w.write_bytes(&ZEROS[..(self.m & 1) as usize])
    }
}
impl Val for HSkip {
    fn gen() -> Self { HSkip { n: choose(4) as u8, m: Val::gen(), x: Val::gen() } }
    fn enc(&self, o: &mut Out) {
        o.u8(self.n);
        if !o.canon { o.raw(&ZEROS[..self.n as usize]) }
        o.u8(self.m);
        o.u16(self.x);
        if !o.canon && self.m & 1 != 0 { o.raw(&ZEROS[..1]) }
    }
}

/// what was peeked must be what is read next
pub struct HPeek { a: u8, b: u16, c: u32, v: u64, r: [u8; 3], w: u16 }
impl<'a, C: Context> Readable<'a, C> for HPeek {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let p = r.peek_u8()?;
        let a = r.read_u8()?;
        if p != a { return Err(fail::<C>("peeked another u8")) }
        let p = r.peek_u16()?;
        let b = r.read_u16()?;
        if p != b { return Err(fail::<C>("peeked another u16")) }
        let p = r.peek_u32()?;
        let c = r.read_u32()?;
        if p != c { return Err(fail::<C>("peeked another u32")) }
        let p = r.peek_u64_varint()?;
        let v = r.read_u64_varint()?;
        if p != v { return Err(fail::<C>("peeked another varint")) }
        let mut p = [0; 3];
        r.peek_bytes(&mut p)?;
        let mut s = [0; 3];
        r.read_bytes(&mut s)?;
        if p != s { return Err(fail::<C>("peeked other bytes")) }
        let w = r.peek_u16()?;
        r.skip_bytes(2)?;
        Ok(HPeek { a, b, c, v, r: s, w })
    }
    fn minimum_bytes_needed() -> usize { 13 }
}
impl<C: Context> Writable<C> for HPeek {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        w.write_u8(self.a)?;
        w.write_u16(self.b)?;
        w.write_u32(self.c)?;
        w.write_u64_varint(self.v)?;
        w.write_bytes(&self.r)?;
        w.write_u16(self.w)
    }
}
impl Val for HPeek {
    fn gen() -> Self { HPeek { a: Val::gen(), b: Val::gen(), c: Val::gen(), v: any_u64() & 0x1fffff, r: bytes(), w: Val::gen() } }
    fn enc(&self, o: &mut Out) { o.u8(self.a); o.u16(self.b); o.u32(self.c); o.varint(self.v); o.raw(&self.r); o.u16(self.w) }
}

/// several collections whose lengths come first
pub struct HMany { v: Vec<u16>, s: String, set: BTreeSet<u8>, map: BTreeMap<u8, u16>, tail: u8 }
impl<'a, C: Context> Readable<'a, C> for HMany {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let k = r.read_u8()?;
        let v = r.read_vec((k & 3) as usize)?;
        let s = r.read_string((k >> 2 & 3) as usize)?;
        let set = r.read_collection((k >> 4 & 1) as usize)?;
        let map = r.read_key_value_collection((k >> 5 & 1) as usize)?;
        Ok(HMany { v, s, set, map, tail: k >> 6 })
    }
}
impl HMany {
    fn k(&self) -> u8 { self.v.len() as u8 | (self.s.len() as u8) << 2 | (self.set.len() as u8) << 4 | (self.map.len() as u8) << 5 | self.tail << 6 }
}
impl<C: Context> Writable<C> for HMany {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        w.write_u8(self.k())?;
        w.write_slice(&self.v)?;
        w.write_slice(self.s.as_bytes())?;
        w.write_collection(self.set.iter())?;
        w.write_collection(self.map.iter())
    }
}
impl Val for HMany {
    fn gen() -> Self {
        let mut x = HMany { v: vec![], s: Val::gen(), set: BTreeSet::new(), map: BTreeMap::new(), tail: any_u8() & 3 };
        let n = choose(3);
        for _ in 0..n { x.v.push(Val::gen()) }
        if choose(2) == 1 { x.set.insert(Val::gen()); }
        if choose(2) == 1 { x.map.insert(Val::gen(), Val::gen()); }
        x
    }
    fn enc(&self, o: &mut Out) {
        o.u8(self.k());
        for x in &self.v { x.enc(o) }
        o.text(&self.s);
        for x in &self.set { x.enc(o) }
        for (k, v) in &self.map { k.enc(o); v.enc(o) }
    }
}

/// borrows what it can and copies the rest; asks beforehand how much there is
pub struct HBack<'a> { a: Cow<'a, [u8]>, b: [u8; 2], c: Cow<'a, [u16]> }
impl<'a, C: Context> Readable<'a, C> for HBack<'a> {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let n = r.read_u8()? as usize;
        let claim = r.can_read_at_least(n);
        let a: Result<Cow<'a, [u8]>, C::Error> = match r.read_bytes_borrowed(n) {
            Some(x) => x.map(Cow::Borrowed),
            None => r.read_vec(n).map(Cow::Owned),
        };
        if let Some(claim) = claim { check(claim == a.is_ok(), "a reader has another number of bytes left than it says") }
        let a = a?;
        check(a.len() == n, "another number of bytes is read");
        let b = match r.read_bytes_borrowed_from_reader(2) {
            Some(x) => { let x = x?; check(x.len() == 2, "another number of bytes is lent"); Some([x[0], x[1]]) }
            None => None,
        };
        let b = match b { Some(b) => b, None => { let mut b = [0; 2]; r.read_bytes(&mut b)?; b } };
        let c = r.read_cow((b[0] & 1) as usize)?;
        Ok(HBack { a, b, c })
    }
    fn minimum_bytes_needed() -> usize { 3 }
}
impl<'a, C: Context> Writable<C> for HBack<'a> {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        w.write_u8(self.a.len() as u8)?;
        w.write_bytes(&self.a)?;
        w.write_bytes(&self.b)?;
        w.write_slice(&self.c)
    }
}
impl<'a> Val for HBack<'a> {
    fn gen() -> Self {
        let (n, m) = (choose(3), choose(2));
        let b = [any_u8() & 0xfe | m as u8, any_u8()];
        HBack { a: Cow::Owned(byte_vec(n)), b, c: Cow::Owned((0..m).map(|_| Val::gen()).collect()) }
    }
    fn enc(&self, o: &mut Out) {
        o.u8(self.a.len() as u8);
        o.raw(&self.a);
        o.raw(&self.b);
        for x in self.c.iter() { x.enc(o) }
    }
}

/// all of the rest, element by element
pub struct HRest { x: u8, v: Vec<u16> }
impl<'a, C: Context> Readable<'a, C> for HRest {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(HRest { x: r.read_u8()?, v: r.read_vec_until_eof()? }) }
    fn minimum_bytes_needed() -> usize { 1 }
}
impl<C: Context> Writable<C> for HRest {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u8(self.x)?; w.write_slice(&self.v) }
}
impl Val for HRest {
    fn gen() -> Self { let n = choose(3); HRest { x: Val::gen(), v: (0..n).map(|_| Val::gen()).collect() } }
    fn enc(&self, o: &mut Out) { o.u8(self.x); for x in &self.v { x.enc(o) } }
}
