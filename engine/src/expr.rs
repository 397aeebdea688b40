//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,  // a high, b low
    Extract, // a, lo = b
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    FAdd, // IEEE arithmetic on bit patterns of width 32 or 64
    FSub,
    FMul,
    FDiv,
    FCvt, // a, kind = b (see fcvt)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub undef: bool,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub const UNDEF_SYM_BASE: u32 = 1 << 24;

pub struct Arena {
    pub nodes: Vec<Node>,
    consts: Vec<u128>,
    table: HashMap<Node, Ex, BuildH>,
    ctable: HashMap<(u16, u128), Ex, BuildH>,
    pub syms: Vec<Option<Rc<Vec<u32>>>>,
    next_undef: u32,
}

#[derive(Clone, Copy, Default)]
pub struct BuildH;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildH {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        let x = self.0 ^ (self.0 >> 29);
        x.wrapping_mul(0x9E3779B97F4A7C15)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

/// Constant folding shared by the concrete interpreter, the simplifier and the model evaluator.
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b as u32) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b as u32
            }
        }
        Op::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => farith(op, w, a, b),
        _ => return None,
    })
}

pub fn finf(w: u32) -> u128 {
    if w == 32 {
        0x7f80_0000
    } else {
        0x7ff0_0000_0000_0000
    }
}
pub fn fquiet(w: u32) -> u128 {
    if w == 32 {
        0x0040_0000
    } else {
        0x0008_0000_0000_0000
    }
}
/// the NaN the hardware makes when no operand was one
pub fn fdefault(w: u32) -> u128 {
    (1u128 << (w - 1)) | finf(w) | fquiet(w)
}
pub fn fisnan(w: u32, a: u128) -> bool {
    a & (mask(w) >> 1) > finf(w)
}
/// IEEE arithmetic as the hardware (SSE2) does it, NaN payloads included.
fn farith(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if fisnan(w, a) {
        return a | fquiet(w);
    }
    if fisnan(w, b) {
        return b | fquiet(w);
    }
    let r = if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        (match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            _ => x / y,
        })
        .to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        (match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            _ => x / y,
        })
        .to_bits() as u128
    };
    if fisnan(w, r) {
        fdefault(w)
    } else {
        r
    }
}
/// Conversions: 0 float to float, 1 unsigned to float, 2 signed to float,
/// 3 float to unsigned (saturating), 4 float to signed (saturating).
pub fn fconv(kind: u32, fw: u32, tw: u32, a: u128) -> u128 {
    let pack = |x: f64| if tw == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
    let val = || if fw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
    match kind {
        0 => {
            if fw == tw {
                return a;
            }
            if fisnan(fw, a) {
                let s = (a >> (fw - 1)) << (tw - 1);
                return if tw == 64 {
                    s | finf(64) | fquiet(64) | ((a & 0x7f_ffff) << 29)
                } else {
                    s | finf(32) | fquiet(32) | ((a >> 29) & 0x7f_ffff)
                };
            }
            pack(val())
        }
        1 if tw == 32 => (a as f32).to_bits() as u128,
        1 => (a as f64).to_bits() as u128,
        2 if tw == 32 => (sext128(a, fw) as f32).to_bits() as u128,
        2 => (sext128(a, fw) as f64).to_bits() as u128,
        3 => (val() as u128).min(mask(tw)),
        _ => {
            let lim = mask(tw - 1) as i128;
            ((val() as i128).clamp(-lim - 1, lim) as u128) & mask(tw)
        }
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut s = Arena {
            nodes: vec![],
            consts: vec![],
            table: HashMap::with_hasher(BuildH),
            ctable: HashMap::with_hasher(BuildH),
            syms: vec![],
            next_undef: UNDEF_SYM_BASE,
        };
        // ids 0 and 1 are reserved markers for memory bytes (0 = concrete, 1 = undefined)
        s.push(Node { op: Op::Const, undef: false, w: 1, a: 0, b: 0, c: 0 });
        s.push(Node { op: Op::Const, undef: true, w: 1, a: 0, b: 0, c: 0 });
        s.consts.push(0);
        s
    }
    fn push(&mut self, n: Node) -> Ex {
        self.nodes.push(n);
        self.syms.push(None);
        (self.nodes.len() - 1) as Ex
    }
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.table.get(&n) {
            return e;
        }
        let e = self.push(n);
        self.table.insert(n, e);
        e
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn node(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    pub fn cval(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn undef(&self, e: Ex) -> bool {
        self.nodes[e as usize].undef
    }
    pub fn konst(&mut self, w: u32, v: u128) -> Ex {
        let v = v & mask(w);
        if let Some(&e) = self.ctable.get(&(w as u16, v)) {
            return e;
        }
        self.consts.push(v);
        let a = (self.consts.len() - 1) as u32;
        let e = self.push(Node { op: Op::Const, undef: false, w: w as u16, a, b: 0, c: 0 });
        self.ctable.insert((w as u16, v), e);
        e
    }
    pub fn sym(&mut self, id: u32, w: u32) -> Ex {
        self.mk(Node { op: Op::Sym, undef: id >= UNDEF_SYM_BASE, w: w as u16, a: id, b: 0, c: 0 })
    }
    pub fn fresh_undef(&mut self, w: u32) -> Ex {
        let id = self.next_undef;
        self.next_undef += 1;
        self.sym(id, w)
    }
    fn n2(&mut self, op: Op, w: u32, a: Ex, b: Ex) -> Ex {
        let u = self.undef(a) | self.undef(b);
        self.mk(Node { op, undef: u, w: w as u16, a, b, c: 0 })
    }
    pub fn not1(&mut self, a: Ex) -> Ex {
        let one = self.konst(1, 1);
        self.bin(Op::Xor, a, one)
    }
    /// Unsigned upper bound, cheap.
    fn umax(&self, e: Ex, depth: u32) -> u128 {
        let n = self.nodes[e as usize];
        let m = mask(n.w as u32);
        if depth == 0 {
            return m;
        }
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::ZExt => self.umax(n.a, depth - 1),
            Op::And => self.umax(n.a, depth - 1).min(self.umax(n.b, depth - 1)),
            Op::Ite => self.umax(n.b, depth - 1).max(self.umax(n.c, depth - 1)),
            Op::LShr => match self.cval(n.b) {
                Some(s) if s < 128 => self.umax(n.a, depth - 1) >> s,
                _ => m,
            },
            Op::Add => {
                let (x, y) = (self.umax(n.a, depth - 1), self.umax(n.b, depth - 1));
                match x.checked_add(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Mul => {
                let (x, y) = (self.umax(n.a, depth - 1), self.umax(n.b, depth - 1));
                match x.checked_mul(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::URem => match self.cval(n.b) {
                Some(c) if c > 0 => c - 1,
                _ => m,
            },
            Op::UDiv => match self.cval(n.b) {
                Some(c) if c > 0 => self.umax(n.a, depth - 1) / c,
                _ => m,
            },
            _ => m,
        }
    }
    pub fn bin(&mut self, op: Op, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (mut ca, mut cb) = (self.cval(a), self.cval(b));
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y).unwrap();
            return self.konst(rw, v);
        }
        // canonical: constant on the right for commutative operations
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let n = self.node(a);
                    if n.op == Op::Add {
                        if let Some(c2) = self.cval(n.b) {
                            let k = self.konst(w, c.wrapping_add(c2));
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                    // (k - x) + c
                    if n.op == Op::Sub {
                        if let Some(c2) = self.cval(n.a) {
                            let k = self.konst(w, c.wrapping_add(c2));
                            return self.bin(Op::Sub, k, n.b);
                        }
                    }
                    if n.op == Op::Ite {
                        if let Some(r) = self.push_ite(op, n, b, false) {
                            return r;
                        }
                    }
                } else {
                    // float constants to the outside: (x + c) + y -> (x + y) + c
                    let na = self.node(a);
                    if na.op == Op::Add && self.cval(na.b).is_some() {
                        let s = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                    let nb = self.node(b);
                    if nb.op == Op::Add && self.cval(nb.b).is_some() {
                        let s = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, s, nb.b);
                    }
                    // (k - x) + x -> k
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    let k = self.konst(w, (0u128).wrapping_sub(c));
                    return self.bin(Op::Add, a, k);
                }
                let na = self.node(a);
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if self.cval(na.b).is_some() {
                        let s = self.bin(Op::Sub, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                }
                let nb = self.node(b);
                if nb.op == Op::Add {
                    if let Some(c) = self.cval(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let k = self.konst(w, (0u128).wrapping_sub(c));
                        return self.bin(Op::Add, s, k);
                    }
                    if nb.a == a {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Sub, z, nb.b);
                    }
                }
                if nb.op == Op::Sub && nb.a == a {
                    return nb.b;
                }
            }
            Op::Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(c) = cb {
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                    if c > 0 && self.umax(a, 6) < c {
                        return self.konst(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(w, c - 1);
                        return self.bin(Op::And, a, k);
                    }
                    if c > 0 && self.umax(a, 6) < c {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    // low mask -> zext(extract)
                    if (c + 1).is_power_of_two() {
                        let k = c.count_ones();
                        let e = self.extract(a, 0, k);
                        return self.zext(e, w);
                    }
                    // high mask
                    let lowz = c.trailing_zeros();
                    if lowz > 0 && (c >> lowz) == mask(w - lowz) {
                        let e = self.extract(a, lowz, w - lowz);
                        let z = self.konst(lowz, 0);
                        return self.concat(e, z);
                    }
                    let n = self.node(a);
                    if n.op == Op::And {
                        if let Some(c2) = self.cval(n.b) {
                            let k = self.konst(w, c & c2);
                            return self.bin(Op::And, n.a, k);
                        }
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let k = self.konst(iw, c);
                        let r = self.bin(Op::And, n.a, k);
                        return self.zext(r, w);
                    }
                    if n.op == Op::Concat {
                        let lw = self.w(n.b);
                        let hw = self.w(n.a);
                        let kh = self.konst(hw, c >> lw);
                        let kl = self.konst(lw, c);
                        let h = self.bin(Op::And, n.a, kh);
                        let l = self.bin(Op::And, n.b, kl);
                        return self.concat(h, l);
                    }
                } else if w == 1 {
                    let na = self.node(a);
                    if na.op == Op::Xor && na.a == b && self.cval(na.b) == Some(1) {
                        return self.konst(1, 0);
                    }
                    let nb = self.node(b);
                    if nb.op == Op::Xor && nb.a == a && self.cval(nb.b) == Some(1) {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                    let n = self.node(a);
                    if n.op == Op::ZExt || n.op == Op::Concat {
                        // split at the boundary
                        let lw = if n.op == Op::ZExt { self.w(n.a) } else { self.w(n.b) };
                        let (h, l) = if n.op == Op::ZExt { (self.konst(w - lw, 0), n.a) } else { (n.a, n.b) };
                        let kh = self.konst(w - lw, c >> lw);
                        let kl = self.konst(lw, c);
                        let h = self.bin(Op::Or, h, kh);
                        let l = self.bin(Op::Or, l, kl);
                        return self.concat(h, l);
                    }
                } else {
                    // or of disjoint pieces -> concat
                    if let Some(r) = self.or_disjoint(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_disjoint(b, a) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let n = self.node(a);
                    if n.op == Op::Xor {
                        if let Some(c2) = self.cval(n.b) {
                            let k = self.konst(w, c ^ c2);
                            return self.bin(Op::Xor, n.a, k);
                        }
                    }
                    if w == 1 {
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                    if n.op == Op::Concat || n.op == Op::ZExt {
                        let lw = if n.op == Op::ZExt { self.w(n.a) } else { self.w(n.b) };
                        let (h, l) = if n.op == Op::ZExt { (self.konst(w - lw, 0), n.a) } else { (n.a, n.b) };
                        let kh = self.konst(w - lw, c >> lw);
                        let kl = self.konst(lw, c);
                        let h = self.bin(Op::Xor, h, kh);
                        let l = self.bin(Op::Xor, l, kl);
                        return self.concat(h, l);
                    }
                }
            }
            Op::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let c = c as u32;
                    let e = self.extract(a, 0, w - c);
                    let z = self.konst(c, 0);
                    return self.concat(e, z);
                }
            }
            Op::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let c = c as u32;
                    let e = self.extract(a, c, w - c);
                    return self.zext(e, w);
                }
            }
            Op::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = (c as u32).min(w - 1);
                    let e = self.extract(a, c, w - c);
                    return self.sext(e, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if let Some(c) = cb {
                        return if c == 1 { a } else { self.not1(a) };
                    }
                }
                let n = self.node(a);
                if let Some(c) = cb {
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if c >> iw != 0 {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, c);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            let t = c & mask(iw);
                            if (sext128(t, iw) as u128) & m != c {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, t);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kh = self.konst(hw, c >> lw);
                            let kl = self.konst(lw, c);
                            let h = self.bin(Op::Eq, n.a, kh);
                            let l = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Add => {
                            if let Some(c2) = self.cval(n.b) {
                                let k = self.konst(w, c.wrapping_sub(c2));
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Sub => {
                            if let Some(c2) = self.cval(n.a) {
                                let k = self.konst(w, c2.wrapping_sub(c));
                                return self.bin(Op::Eq, n.b, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(c2) = self.cval(n.b) {
                                let k = self.konst(w, c ^ c2);
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Ite => {
                            if let (Some(x), Some(y)) = (self.cval(n.b), self.cval(n.c)) {
                                let (ex, ey) = (x == c, y == c);
                                return match (ex, ey) {
                                    (true, true) => self.konst(1, 1),
                                    (false, false) => self.konst(1, 0),
                                    (true, false) => n.a,
                                    (false, true) => self.not1(n.a),
                                };
                            }
                            if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                                let x = self.bin(Op::Eq, n.b, b);
                                let y = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, x, y);
                            }
                        }
                        _ => {
                            if c > self.umax(a, 6) {
                                return self.konst(1, 0);
                            }
                        }
                    }
                } else {
                    let nb = self.node(b);
                    if n.op == Op::ZExt && nb.op == Op::ZExt && self.w(n.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, n.a, nb.a);
                    }
                    if n.op == Op::SExt && nb.op == Op::SExt && self.w(n.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, n.a, nb.a);
                    }
                    if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) {
                        let h = self.bin(Op::Eq, n.a, nb.a);
                        let l = self.bin(Op::Eq, n.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                    if n.op == Op::Add && nb.op == Op::Add && n.b == nb.b {
                        return self.bin(Op::Eq, n.a, nb.a);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.konst(1, (op == Op::Ule) as u128);
                }
                if op == Op::Ult && cb == Some(0) {
                    return self.konst(1, 0);
                }
                if op == Op::Ule && ca == Some(0) {
                    return self.konst(1, 1);
                }
                if let Some(c) = cb {
                    let u = self.umax(a, 8);
                    if (op == Op::Ult && u < c) || (op == Op::Ule && u <= c) {
                        return self.konst(1, 1);
                    }
                    if op == Op::Ult && c == 1 {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    let n = self.node(a);
                    if n.op == Op::ZExt {
                        let k = self.konst(self.w(n.a), c);
                        return self.bin(op, n.a, k);
                    }
                }
                if let Some(c) = ca {
                    let u = self.umax(b, 8);
                    if (op == Op::Ult && c >= u) || (op == Op::Ule && c > u) {
                        return self.konst(1, 0);
                    }
                    let n = self.node(b);
                    if n.op == Op::ZExt {
                        let k = self.konst(self.w(n.a), c);
                        return self.bin(op, k, n.a);
                    }
                    if op == Op::Ult && c == 0 {
                        let z = self.konst(w, 0);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not1(e);
                    }
                }
                let (n, nb) = (self.node(a), self.node(b));
                if n.op == Op::ZExt && nb.op == Op::ZExt && self.w(n.a) == self.w(nb.a) {
                    return self.bin(op, n.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                // both known non-negative
                let half = m >> 1;
                if self.umax(a, 6) <= half && self.umax(b, 6) <= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // x < 0 -> sign bit
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == Op::Sle && ca == Some(0) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not1(s);
                }
            }
            // cases that need no rounding: the operand itself, made quiet
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let neg0 = 1u128 << (w - 1);
                let one = if w == 32 { 0x3f80_0000 } else { 0x3ff0_0000_0000_0000 };
                let (mut x, mut k) = (a, cb);
                if k.is_none() && matches!(op, Op::FAdd | Op::FMul) {
                    x = b;
                    k = ca;
                }
                let same = match (op, k) {
                    (Op::FAdd, Some(c)) => c == neg0,
                    (Op::FSub, Some(c)) => c == 0,
                    (Op::FMul | Op::FDiv, Some(c)) => c == one,
                    _ => false,
                };
                let plus0 = matches!((op, k), (Op::FAdd, Some(0))) || (op == Op::FSub && k == Some(neg0));
                if same || plus0 {
                    let nan = self.fnan(x);
                    let q = self.konst(w, fquiet(w));
                    let qx = self.bin(Op::Or, x, q);
                    let mut r = x;
                    if plus0 {
                        let n0 = self.konst(w, neg0);
                        let z = self.konst(w, 0);
                        let is = self.bin(Op::Eq, x, n0);
                        r = self.ite(is, z, x);
                    }
                    return self.ite(nan, qx, r);
                }
            }
            _ => {}
        }
        self.n2(op, rw, a, b)
    }
    pub fn fnan(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let m = self.extract(a, 0, w - 1);
        let i = self.konst(w - 1, finf(w));
        self.bin(Op::Ult, i, m)
    }
    pub fn fcvt(&mut self, a: Ex, kind: u32, w: u32) -> Ex {
        let fw = self.w(a);
        if kind == 0 && fw == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.konst(w, fconv(kind, fw, w, c));
        }
        let u = self.undef(a);
        self.mk(Node { op: Op::FCvt, undef: u, w: w as u16, a, b: kind, c: 0 })
    }
    /// Ordered equality and ordered less-than of two floats (false when either is a NaN), and unordered.
    pub fn fcmp(&mut self, a: Ex, b: Ex) -> (Ex, Ex, Ex) {
        let w = self.w(a);
        let (na, nb) = (self.fnan(a), self.fnan(b));
        let un = self.bin(Op::Or, na, nb);
        let ord = self.not1(un);
        let (ma, mb) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
        let (sa, sb) = (self.extract(a, w - 1, 1), self.extract(b, w - 1, 1));
        let z = self.konst(w - 1, 0);
        let (za, zb) = (self.bin(Op::Eq, ma, z), self.bin(Op::Eq, mb, z));
        let both0 = self.bin(Op::And, za, zb);
        let id = self.bin(Op::Eq, a, b);
        let eq0 = self.bin(Op::Or, id, both0);
        let eq = self.bin(Op::And, ord, eq0);
        // a < b: different signs: a negative and not both zero; same sign: magnitudes
        let lt_pos = self.bin(Op::Ult, ma, mb);
        let lt_neg = self.bin(Op::Ult, mb, ma);
        let n0 = self.not1(both0);
        let t = self.konst(1, 1);
        let f = self.konst(1, 0);
        let nsb = self.ite(sb, lt_neg, n0);
        let psb = self.ite(sb, f, lt_pos);
        let _ = t;
        let lt0 = self.ite(sa, nsb, psb);
        let lt = self.bin(Op::And, ord, lt0);
        (eq, lt, un)
    }
    fn push_ite(&mut self, op: Op, n: Node, k: Ex, _left: bool) -> Option<Ex> {
        if self.cval(n.b).is_some() && self.cval(n.c).is_some() {
            let x = self.bin(op, n.b, k);
            let y = self.bin(op, n.c, k);
            Some(self.ite(n.a, x, y))
        } else {
            None
        }
    }
    /// a has its low k bits zero (Concat(h, 0)), b < 2^k: a | b == concat(h, b[k])
    fn or_disjoint(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        let na = self.node(a);
        if na.op != Op::Concat {
            return None;
        }
        let nb = self.node(b);
        // general: split both at the boundary of a's low part when that low part is zero
        // or b's part is zero on one side
        let lw = self.w(na.b);
        let low_zero = self.cval(na.b) == Some(0);
        let b_lowpart = match nb.op {
            Op::ZExt => self.w(nb.a) <= lw,
            _ => false,
        };
        if low_zero && b_lowpart {
            let l = self.zext(nb.a, lw);
            return Some(self.concat(na.a, l));
        }
        if nb.op == Op::Concat || nb.op == Op::ZExt {
            let (bh, bl) = (self.extract(b, lw, w - lw), self.extract(b, 0, lw));
            let h_triv = self.cval(bh) == Some(0) || self.cval(na.a) == Some(0);
            let l_triv = self.cval(bl) == Some(0) || self.cval(na.b) == Some(0);
            if h_triv && l_triv {
                let h = self.bin(Op::Or, na.a, bh);
                let l = self.bin(Op::Or, na.b, bl);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        assert!(w <= 128);
        let (ch, cl) = (self.cval(hi), self.cval(lo));
        if let (Some(h), Some(l)) = (ch, cl) {
            return self.konst(w, (h << lw) | l);
        }
        if ch == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.node(hi), self.node(lo));
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.a, nl.b, w);
        }
        // whole value split: concat(extract(x, lw, hw), extract(x,0,lw)) handled above;
        // x itself as low part cannot recombine.
        if nl.op == Op::Concat {
            let nlh = self.node(nl.a);
            // concat(extract(x,hi), concat(extract(x,lo'),rest))
            if nh.op == Op::Extract && nlh.op == Op::Extract && nh.a == nlh.a && nh.b == nlh.b + self.w(nl.a) {
                let j = self.extract(nh.a, nlh.b, hw + self.w(nl.a));
                return self.concat(j, nl.b);
            }
            if ch.is_some() {
                if let Some(c2) = self.cval(nl.a) {
                    let w2 = self.w(nl.a);
                    let k = self.konst(hw + w2, (ch.unwrap() << w2) | c2);
                    return self.concat(k, nl.b);
                }
            }
        }
        // right-leaning normal form
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::ZExt {
            let r = self.concat(nh.a, lo);
            return self.zext(r, w);
        }
        self.n2(Op::Concat, w, hi, lo)
    }
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.konst(w, c >> lo);
        }
        let n = self.node(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let e = self.extract(n.a, lo, iw - lo);
                    return self.sext(e, w);
                }
                let e = self.extract(n.a, iw - 1, 1);
                return self.sext(e, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul => {
                if lo == 0 && w <= 64 && aw > w {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        let u = self.undef(a);
        self.mk(Node { op: Op::Extract, undef: u, w: w as u16, a, b: lo, c: 0 })
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.konst(w, c);
        }
        let n = self.node(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        let u = self.undef(a);
        self.mk(Node { op: Op::ZExt, undef: u, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.konst(w, sext128(c, aw) as u128);
        }
        let n = self.node(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        let u = self.undef(a);
        self.mk(Node { op: Op::SExt, undef: u, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, b);
                }
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let nc = self.node(c);
        if nc.op == Op::Xor && self.cval(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let u = self.undef(a) | self.undef(b) | self.undef(c);
        self.mk(Node { op: Op::Ite, undef: u, w: w as u16, a: c, b: a, c: b })
    }
    /// Sorted symbol ids occurring in e.
    pub fn symbols(&mut self, e: Ex) -> Rc<Vec<u32>> {
        if let Some(s) = &self.syms[e as usize] {
            return s.clone();
        }
        let n = self.node(e);
        let kids: &[Ex] = &match n.op {
            Op::Const | Op::Sym => vec![],
            Op::Extract | Op::ZExt | Op::SExt | Op::FCvt => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        };
        let r = if n.op == Op::Sym {
            Rc::new(vec![n.a])
        } else if kids.len() == 1 {
            self.symbols(kids[0])
        } else {
            let mut v: Vec<u32> = vec![];
            for &k in kids {
                v.extend_from_slice(&self.symbols(k));
            }
            v.sort_unstable();
            v.dedup();
            Rc::new(v)
        };
        self.syms[e as usize] = Some(r.clone());
        r
    }
    /// Rebuild e with the given replacements (memoised per call).
    pub fn subst(&mut self, e: Ex, known: &HashMap<Ex, Ex, BuildH>, memo: &mut HashMap<Ex, Ex, BuildH>) -> Ex {
        if self.nodes[e as usize].op == Op::Const {
            return e;
        }
        if let Some(&k) = known.get(&e) {
            return k;
        }
        if let Some(&k) = memo.get(&e) {
            return k;
        }
        let n = self.node(e);
        let r = match n.op {
            Op::Const | Op::Sym => e,
            Op::Extract => {
                let a = self.subst(n.a, known, memo);
                if a == n.a {
                    e
                } else {
                    self.extract(a, n.b, n.w as u32)
                }
            }
            Op::ZExt => {
                let a = self.subst(n.a, known, memo);
                if a == n.a {
                    e
                } else {
                    self.zext(a, n.w as u32)
                }
            }
            Op::SExt => {
                let a = self.subst(n.a, known, memo);
                if a == n.a {
                    e
                } else {
                    self.sext(a, n.w as u32)
                }
            }
            Op::FCvt => {
                let a = self.subst(n.a, known, memo);
                if a == n.a {
                    e
                } else {
                    self.fcvt(a, n.b, n.w as u32)
                }
            }
            Op::Ite => {
                let a = self.subst(n.a, known, memo);
                let b = self.subst(n.b, known, memo);
                let c = self.subst(n.c, known, memo);
                if a == n.a && b == n.b && c == n.c {
                    e
                } else {
                    self.ite(a, b, c)
                }
            }
            Op::Concat => {
                let a = self.subst(n.a, known, memo);
                let b = self.subst(n.b, known, memo);
                if a == n.a && b == n.b {
                    e
                } else {
                    self.concat(a, b)
                }
            }
            _ => {
                let a = self.subst(n.a, known, memo);
                let b = self.subst(n.b, known, memo);
                if a == n.a && b == n.b {
                    e
                } else {
                    self.bin(n.op, a, b)
                }
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn eval(&self, e: Ex, model: &dyn Fn(u32) -> u128, memo: &mut HashMap<Ex, u128, BuildH>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Sym => return model(n.a) & mask(n.w as u32),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Extract => (self.eval(n.a, model, memo) >> n.b) & mask(w),
            Op::ZExt => self.eval(n.a, model, memo),
            Op::FCvt => {
                let x = self.eval(n.a, model, memo);
                fconv(n.b, self.w(n.a), w, x)
            }
            Op::SExt => {
                let x = self.eval(n.a, model, memo);
                (sext128(x, self.w(n.a)) as u128) & mask(w)
            }
            Op::Concat => {
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                (h << self.w(n.b)) | l
            }
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            op => {
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                fold(op, self.w(n.a), a, b).unwrap()
            }
        };
        memo.insert(e, v);
        v
    }
}
