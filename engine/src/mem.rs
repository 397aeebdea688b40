//! Memory objects: byte arrays whose bytes are concrete, symbolic (8-bit expressions) or undefined.
use crate::expr::Ex;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Const,
    Global,
    Stack,
    Heap,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    C(u8),
    S(Ex),
    U,
}
/// marker values in `sym`
const CONC: Ex = 0;
const UND: Ex = 1;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub size_sym: Option<Ex>,
    pub align: u64,
    pub kind: Kind,
    pub fill_zero: bool,
    data: Vec<u8>,
    sym: Vec<Ex>, // empty = all of data concrete
}

impl Obj {
    pub fn new(size: u64, align: u64, kind: Kind, fill_zero: bool) -> Obj {
        Obj { size, size_sym: None, align, kind, fill_zero, data: vec![], sym: vec![] }
    }
    pub fn get(&self, i: u64) -> B {
        let i = i as usize;
        if i >= self.data.len() {
            return if self.fill_zero { B::C(0) } else { B::U };
        }
        if self.sym.is_empty() {
            return B::C(self.data[i]);
        }
        match self.sym[i] {
            CONC => B::C(self.data[i]),
            UND => B::U,
            e => B::S(e),
        }
    }
    fn grow(&mut self, end: usize) {
        let old = self.data.len();
        if end > old {
            let undef_gap = !self.fill_zero;
            if undef_gap && self.sym.is_empty() {
                self.sym = vec![CONC; old];
            }
            self.data.resize(end, 0);
            if !self.sym.is_empty() {
                self.sym.resize(end, if undef_gap { UND } else { CONC });
            }
        }
    }
    pub fn set(&mut self, i: u64, b: B) {
        let i = i as usize;
        if i >= self.data.len() {
            match b {
                B::C(v) if i == self.data.len() => {
                    self.data.push(v);
                    if !self.sym.is_empty() {
                        self.sym.push(CONC);
                    }
                    return;
                }
                B::U if !self.fill_zero => return,
                _ => self.grow(i + 1),
            }
        }
        match b {
            B::C(v) => {
                self.data[i] = v;
                if !self.sym.is_empty() {
                    self.sym[i] = CONC;
                }
            }
            B::S(e) => {
                if self.sym.is_empty() {
                    self.sym = vec![CONC; self.data.len()];
                }
                self.sym[i] = e;
            }
            B::U => {
                if self.sym.is_empty() {
                    self.sym = vec![CONC; self.data.len()];
                }
                self.sym[i] = UND;
            }
        }
    }
    /// n concrete bytes, little-endian, if all are concrete (n <= 16)
    pub fn get_c(&self, off: u64, n: u64) -> Option<u128> {
        let (o, n) = (off as usize, n as usize);
        if o + n > self.data.len() {
            return None;
        }
        if !self.sym.is_empty() && self.sym[o..o + n].iter().any(|&e| e != CONC) {
            return None;
        }
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&self.data[o..o + n]);
        Some(u128::from_le_bytes(b))
    }
    pub fn set_c(&mut self, off: u64, n: u64, v: u128) {
        let (o, n) = (off as usize, n as usize);
        let b = v.to_le_bytes();
        if o == self.data.len() && n <= 16 {
            self.data.extend_from_slice(&b[..n]);
            if !self.sym.is_empty() {
                self.sym.resize(o + n, CONC);
            }
            return;
        }
        if o + n > self.data.len() {
            self.grow(o + n);
        }
        self.data[o..o + n].copy_from_slice(&b[..n]);
        if !self.sym.is_empty() {
            self.sym[o..o + n].fill(CONC);
        }
    }
    pub fn range(&self, off: u64, n: u64) -> (Vec<u8>, Vec<Ex>) {
        let (o, n) = (off as usize, n as usize);
        let e = (o + n).min(self.data.len());
        let mut d = if o < e { self.data[o..e].to_vec() } else { vec![] };
        let mut s = if self.sym.is_empty() || o >= e { vec![] } else { self.sym[o..e].to_vec() };
        if d.len() < n {
            if !self.fill_zero && s.is_empty() {
                s = vec![CONC; d.len()];
            }
            d.resize(n, 0);
            if !s.is_empty() || !self.fill_zero {
                s.resize(n, if self.fill_zero { CONC } else { UND });
            }
        }
        if s.iter().all(|&x| x == CONC) {
            s.clear();
        }
        (d, s)
    }
    pub fn put_range(&mut self, off: u64, d: &[u8], s: &[Ex]) {
        let o = off as usize;
        let e = o + d.len();
        if s.is_empty() && o == self.data.len() {
            self.data.extend_from_slice(d);
            if !self.sym.is_empty() {
                self.sym.resize(e, CONC);
            }
            return;
        }
        self.grow(e);
        self.data[o..e].copy_from_slice(d);
        if s.is_empty() {
            if !self.sym.is_empty() {
                self.sym[o..e].fill(CONC);
            }
        } else {
            if self.sym.is_empty() {
                self.sym = vec![CONC; self.data.len()];
            }
            self.sym[o..e].copy_from_slice(s);
        }
    }
    pub fn fill(&mut self, off: u64, n: u64, b: B) {
        if n == 0 {
            return;
        }
        match b {
            B::C(v) => {
                let d = vec![v; n as usize];
                self.put_range(off, &d, &[]);
            }
            _ => {
                for i in 0..n {
                    self.set(off + i, b);
                }
            }
        }
    }
    pub fn extent(&self) -> u64 {
        self.data.len() as u64
    }
    /// undefine all bytes from `off` on (object truncated)
    pub fn all_concrete(&self) -> bool {
        self.sym.is_empty()
    }
}
