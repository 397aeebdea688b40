//! Parser for the textual LLVM IR that rustc emits (the subset that occurs).
use crate::expr::{finf, fquiet};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Half,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Opaque,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Half => 16,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Half | Ty::Float | Ty::Double)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size (stride).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(_) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field_ty {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("nfields"),
        }
    }
}

/// Runtime / constant value.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    Agg(Rc<Vec<Val>>),
    Undef,
}

#[derive(Clone, Debug)]
pub enum Opn {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, ptrtoint, inttoptr
    FpTrunc,
    FpExt,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opn),
    Asm(String),
}

#[derive(Debug)]
pub enum I {
    Bin(BinOp, Ty, Opn, Opn, u32),
    Icmp(Pred, Ty, Opn, Opn, u32),
    Fcmp(String, Ty, Opn, Opn, u32),
    FNeg(Ty, Opn, u32),
    Cast(CastK, Ty, Ty, Opn, u32),
    Load(Ty, Opn, u32, u64),
    Store(Ty, Opn, Opn, u64),
    Gep(Opn, u64, Vec<(Opn, u32, u64)>, u32),
    Alloca(u64, u64, u32),
    Call { callee: Callee, args: Vec<Opn>, tys: Vec<Ty>, rty: Ty, d: Option<u32>, normal: Option<u32> },
    Br(u32),
    CondBr(Opn, u32, u32),
    Switch(u32, Opn, u32, Vec<(u128, u32)>),
    Ret(Option<Opn>),
    Unreachable,
    Select(Ty, Ty, Opn, Opn, Opn, u32),
    ExtractValue(Opn, Vec<usize>, u32),
    InsertValue(Ty, Opn, Opn, Vec<usize>, u32),
    ExtractElement(Opn, Opn, u32),
    InsertElement(Ty, Opn, Opn, Opn, u32),
    Shuffle(Ty, Opn, Opn, Vec<Option<usize>>, u32),
    Freeze(Ty, Opn, u32),
    AtomicRmw(String, Ty, Opn, Opn, u32),
    CmpXchg(Ty, Opn, Opn, Opn, u32),
    Nop,
    Unsupported(String),
}

pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, Opn)>,
}
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}
pub struct Func {
    pub idx: u32,
    pub name: String,
    pub pretty: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub ninst: usize,
}

pub struct FnDecl {
    pub name: String,
    pub pretty: String,
    pub body: Option<(usize, usize)>, // byte range incl. define line
    pub parsed: RefCell<Option<&'static Func>>,
}
pub struct Glob {
    pub name: String,
    pub text: (usize, usize),
    pub constant: bool,
    pub external: bool,
    pub info: RefCell<Option<(Ty, u64)>>, // type, align
}

pub struct Module {
    pub src: String,
    pub fns: Vec<FnDecl>,
    pub globs: Vec<Glob>,
    pub fn_by_name: HashMap<String, u32>,
    pub glob_by_name: HashMap<String, u32>,
    pub types: RefCell<HashMap<String, Ty>>,
    pub type_src: HashMap<String, (usize, usize)>,
    pub alias: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x4000_0000;
pub fn fn_addr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 32
}
pub fn glob_addr(i: u32) -> u64 {
    ((1 + i as u64) << 32) + 0x10000
}
pub const OBJ_OFF: u64 = 0x10000;

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub struct P<'a> {
    m: &'a Module,
    s: &'a [u8],
    i: usize,
    locals: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn new(m: &'a Module, s: &'a str) -> Self {
        P { m, s: s.as_bytes(), i: 0, locals: HashMap::new(), blocks: HashMap::new() }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at '{}'", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + 80).min(self.s.len())]).into_owned()
    }
    fn word_peek(&mut self) -> &'a str {
        self.ws();
        let s = self.s;
        let mut j = self.i;
        while j < s.len() && is_id(s[j]) {
            j += 1
        }
        std::str::from_utf8(&s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.word_peek();
        self.i += w.len();
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word_peek() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// after % or @
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1
            }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[st..j]).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn uint(&mut self) -> R<u64> {
        let w = self.word();
        w.parse().map_err(|_| format!("int '{}'", w))
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n = self.uint()?;
                if !self.eatw("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}')?;
                    self.exp(b'>')?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n = self.uint()?;
                if !self.eatw("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp(b'>')?;
                Ok(Ty::Vec(n, Rc::new(t)))
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}')?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.named_ty(&n)
            }
            _ => {
                let w = self.word();
                Ok(match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.word_peek() == "addrspace" {
                            self.word();
                            self.ws();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "half" => Ty::Half,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "metadata" | "label" | "token" | "opaque" | "fp128" | "x86_fp80" | "bfloat" => Ty::Opaque,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => return Err(format!("type '{}' {}", w, self.rest())),
                })
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(b',') {
                continue;
            }
            self.exp(end)?;
            return Ok(v);
        }
    }
    fn symaddr(&mut self) -> R<u64> {
        let mut n = self.name();
        if let Some(t) = self.m.alias.get(&n) {
            n = t.clone();
        }
        if let Some(&f) = self.m.fn_by_name.get(&n) {
            return Ok(fn_addr(f));
        }
        if let Some(&g) = self.m.glob_by_name.get(&n) {
            if self.m.globs[g as usize].external {
                return Ok(0);
            }
            return Ok(glob_addr(g));
        }
        Err(format!("unknown symbol @{}", n))
    }
    fn float_bits(t: &Ty, w: &str) -> R<u128> {
        if matches!(t, Ty::Float | Ty::Double) && (w.starts_with('+') || w.starts_with('-') || w.starts_with("f0x")) {
            let bits = t.bits();
            let num = |s: &str| u128::from_str_radix(s.trim_start_matches("0x").trim_end_matches(')'), 16).map_err(|e| e.to_string());
            if let Some(h) = w.strip_prefix("f0x") {
                return num(h);
            }
            let s = ((w.starts_with('-')) as u128) << (bits - 1);
            let r = &w[1..];
            let k = match r {
                "inf" => Some(finf(bits)),
                "qnan" => Some(finf(bits) | fquiet(bits)),
                _ => match (r.strip_prefix("nan("), r.strip_prefix("snan(")) {
                    (Some(p), _) => Some(finf(bits) | fquiet(bits) | num(p)?),
                    (_, Some(p)) => Some(finf(bits) | num(p)?),
                    _ => None,
                },
            };
            if let Some(k) = k {
                return Ok(s | k);
            }
        }
        if let Some(h) = w.strip_prefix("0x") {
            if let Some(h) = h.strip_prefix('H') {
                return u128::from_str_radix(h, 16).map_err(|e| e.to_string());
            }
            let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
            return Ok(match t {
                Ty::Float => (f64::from_bits(v) as f32).to_bits() as u128,
                _ => v as u128,
            });
        }
        let v: f64 = w.parse().map_err(|_| format!("float {}", w))?;
        Ok(match t {
            Ty::Float => (v as f32).to_bits() as u128,
            _ => v.to_bits() as u128,
        })
    }
    pub fn konst(&mut self, t: &Ty) -> R<Val> {
        match self.opn(t)? {
            Opn::C(v) => Ok(v),
            _ => Err("register in constant".into()),
        }
    }
    fn zero(t: &Ty) -> Val {
        match t {
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = Self::zero(e);
                Val::Agg(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::C(0),
        }
    }
    /// operand of type t
    pub fn opn(&mut self, t: &Ty) -> R<Opn> {
        let c = self.peek();
        let m = |w: u32| if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        match c {
            b'%' => {
                self.i += 1;
                let n = self.name();
                let k = self.locals.len() as u32;
                return Ok(Opn::R(*self.locals.entry(n).or_insert(k)));
            }
            b'@' => {
                self.i += 1;
                return Ok(Opn::C(Val::C(self.symaddr()? as u128)));
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    let b = self.s[self.i];
                    if b == b'\\' {
                        if self.s[self.i + 1] == b'\\' {
                            v.push(Val::C(b'\\' as u128));
                            self.i += 2;
                        } else {
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            v.push(Val::C(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128));
                            self.i += 3;
                        }
                    } else {
                        v.push(Val::C(b as u128));
                        self.i += 1;
                    }
                }
                self.i += 1;
                return Ok(Opn::C(Val::Agg(Rc::new(v))));
            }
            b'[' | b'{' => {
                self.i += 1;
                let end = if c == b'[' { b']' } else { b'}' };
                return Ok(Opn::C(Val::Agg(Rc::new(self.klist(end)?))));
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.klist(b'}')?;
                    self.exp(b'>')?;
                    return Ok(Opn::C(Val::Agg(Rc::new(v))));
                }
                return Ok(Opn::C(Val::Agg(Rc::new(self.klist(b'>')?))));
            }
            _ => {}
        }
        if matches!(t, Ty::Float | Ty::Double | Ty::Half) && (c == b'-' || c == b'+' || c.is_ascii_digit() || self.s[self.i..].starts_with(b"f0x")) {
            let st = self.i;
            while self.i < self.s.len()
                && (self.s[self.i].is_ascii_alphanumeric() || (matches!(self.s[self.i], b'.' | b'+' | b'-') || self.s[self.i] == b'(' || self.s[self.i] == b')' && self.s[st..self.i].contains(&b'(')))
            {
                self.i += 1
            }
            let w = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
            return Ok(Opn::C(Val::C(Self::float_bits(t, &w)?)));
        }
        let w = self.word();
        Ok(Opn::C(match w {
            "null" | "false" | "none" => Val::C(0),
            "true" => Val::C(1),
            "undef" | "poison" => Val::Undef,
            "zeroinitializer" => Self::zero(t),
            "splat" => {
                self.exp(b'(')?;
                let et = self.ty()?;
                let v = self.konst(&et)?;
                self.exp(b')')?;
                Val::Agg(Rc::new(vec![v; t.nfields()]))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                self.exp(b'(')?;
                let ft = self.ty()?;
                let v = self.konst(&ft)?;
                if !self.eatw("to") {
                    return Err("to".into());
                }
                let tt = self.ty()?;
                self.exp(b')')?;
                match v {
                    Val::C(x) => Val::C(x & m(tt.bits())),
                    o => o,
                }
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    let w = self.word();
                    if w == "inrange" {
                        self.ws();
                        self.skip_parens();
                    }
                }
                self.exp(b'(')?;
                let bt = self.ty()?;
                self.exp(b',')?;
                let pt = self.ty()?;
                let base = self.konst(&pt)?;
                let (off, terms) = self.gep_idx(&bt)?;
                self.exp(b')')?;
                if !terms.is_empty() {
                    return Err("const gep with regs".into());
                }
                match base {
                    Val::C(x) => Val::C((x as u64).wrapping_add(off) as u128),
                    o => o,
                }
            }
            "sub" | "add" | "xor" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.exp(b'(')?;
                let t1 = self.ty()?;
                let a = self.konst(&t1)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let b = self.konst(&t2)?;
                self.exp(b')')?;
                match (a, b) {
                    (Val::C(x), Val::C(y)) => Val::C(
                        match w {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            _ => x ^ y,
                        } & m(t1.bits()),
                    ),
                    _ => return Err("const expr".into()),
                }
            }
            _ => {
                let v: i128 = w
                    .parse::<i128>()
                    .or_else(|_| w.parse::<u128>().map(|x| x as i128))
                    .map_err(|_| format!("operand '{}' {}", w, self.rest()))?;
                Val::C((v as u128) & m(t.bits()))
            }
        }))
    }
    fn klist(&mut self, end: u8) -> R<Vec<Val>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat(b',') {
                continue;
            }
            self.exp(end)?;
            return Ok(v);
        }
    }
    /// ", ty idx, ty idx..." -> constant offset and variable terms
    fn gep_idx(&mut self, bt: &Ty) -> R<(u64, Vec<(Opn, u32, u64)>)> {
        let mut off = 0u64;
        let mut terms = vec![];
        let mut cur = bt.clone();
        let mut first = true;
        while self.peek() == b',' {
            let save = self.i;
            self.i += 1;
            if self.peek() == b'!' {
                self.i = save;
                break;
            }
            self.eatw("inrange");
            let it = self.ty()?;
            if let Ty::Vec(..) = it {
                return Err("vector gep".into());
            }
            let o = self.opn(&it)?;
            let w = it.bits();
            if first {
                first = false;
                let sz = cur.size();
                match &o {
                    Opn::C(Val::C(x)) => {
                        off = off.wrapping_add((crate::expr::sext128(*x, w) as u64).wrapping_mul(sz))
                    }
                    _ => terms.push((o, w, sz)),
                }
            } else {
                match (&cur, &o) {
                    (Ty::Struct(..), Opn::C(Val::C(x))) => {
                        off = off.wrapping_add(cur.field_off(*x as usize));
                        cur = cur.field_ty(*x as usize);
                    }
                    (Ty::Arr(_, e), _) | (Ty::Vec(_, e), _) => {
                        let e = (**e).clone();
                        let sz = e.size();
                        match &o {
                            Opn::C(Val::C(x)) => {
                                off = off.wrapping_add((crate::expr::sext128(*x, w) as u64).wrapping_mul(sz))
                            }
                            _ => terms.push((o, w, sz)),
                        }
                        cur = e;
                    }
                    _ => return Err("gep".into()),
                }
            }
        }
        Ok((off, terms))
    }
    /// skip parameter attributes before a value
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                self.i += self.s[self.i..].iter().position(|&x| x == b'"').unwrap() + 1;
                if self.peek() == b'=' {
                    self.i += 1;
                    self.ws();
                    self.i += 1;
                    self.i += self.s[self.i..].iter().position(|&x| x == b'"').unwrap() + 1;
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            if c == b'c' && self.s[self.i + 1] == b'"' {
                return;
            }
            let w = self.word_peek();
            match w {
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "splat" | "inttoptr"
                | "ptrtoint" | "ptrtoaddr" | "getelementptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "asm" => {
                    return
                }
                "align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        self.word();
                    }
                }
                _ => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }
    /// return-type attributes: skip words until a type starts
    fn ret_attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_lowercase() {
                return;
            }
            let w = self.word_peek();
            let is_ty = matches!(w, "void" | "ptr" | "half" | "float" | "double" | "metadata" | "token")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
            if is_ty {
                return;
            }
            self.word();
            if w == "align" && self.peek().is_ascii_digit() {
                self.word();
            } else if w == "cc" {
                self.word();
            } else if self.peek() == b'(' {
                self.skip_parens();
            }
        }
    }
    fn label(&mut self) -> R<u32> {
        if !self.eatw("label") {
            return Err(format!("label at {}", self.rest()));
        }
        self.exp(b'%')?;
        let n = self.name();
        self.blocks.get(&n).copied().ok_or(format!("block {}", n))
    }
    fn tyop(&mut self) -> R<(Ty, Opn)> {
        let t = self.ty()?;
        let o = self.opn(&t)?;
        Ok((t, o))
    }
    fn flags(&mut self) {
        loop {
            let w = self.word_peek();
            match w {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "samesign" | "nneg" | "volatile"
                | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak" => {
                    self.word();
                }
                "inrange" => {
                    self.word();
                    self.ws();
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn find_align(&mut self) -> u64 {
        // remaining part of the line: ", align N"
        let r = &self.s[self.i..];
        let pat = b"align ";
        for k in 0..r.len().saturating_sub(pat.len()) {
            if &r[k..k + pat.len()] == pat {
                let mut v = 0u64;
                for &b in &r[k + pat.len()..] {
                    if b.is_ascii_digit() {
                        v = v * 10 + (b - b'0') as u64
                    } else {
                        break;
                    }
                }
                return v;
            }
        }
        1
    }
    fn inst(&mut self, line: &'a str, phis: &mut Vec<Phi>) -> R<I> {
        self.s = line.as_bytes();
        self.i = 0;
        let mut d = None;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            self.exp(b'=')?;
            let k = self.locals.len() as u32;
            d = Some(*self.locals.entry(n).or_insert(k));
        }
        let dd = d.unwrap_or(u32::MAX);
        let mut op = self.word();
        if op == "tail" || op == "musttail" || op == "notail" {
            op = self.word();
        }
        use BinOp::*;
        let bin = match op {
            "add" => Some(Add),
            "sub" => Some(Sub),
            "mul" => Some(Mul),
            "udiv" => Some(UDiv),
            "sdiv" => Some(SDiv),
            "urem" => Some(URem),
            "srem" => Some(SRem),
            "and" => Some(And),
            "or" => Some(Or),
            "xor" => Some(Xor),
            "shl" => Some(Shl),
            "lshr" => Some(LShr),
            "ashr" => Some(AShr),
            "fadd" => Some(FAdd),
            "fsub" => Some(FSub),
            "fmul" => Some(FMul),
            "fdiv" => Some(FDiv),
            "frem" => Some(FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags();
            let (t, a) = self.tyop()?;
            self.exp(b',')?;
            let c = self.opn(&t)?;
            return Ok(I::Bin(b, t, a, c, dd));
        }
        let cast = match op {
            "trunc" => Some(CastK::Trunc),
            "zext" => Some(CastK::ZExt),
            "sext" => Some(CastK::SExt),
            "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(CastK::Bit),
            "fptrunc" => Some(CastK::FpTrunc),
            "fpext" => Some(CastK::FpExt),
            "uitofp" => Some(CastK::UiToFp),
            "sitofp" => Some(CastK::SiToFp),
            "fptoui" => Some(CastK::FpToUi),
            "fptosi" => Some(CastK::FpToSi),
            _ => None,
        };
        if let Some(k) = cast {
            self.flags();
            let (t, a) = self.tyop()?;
            if !self.eatw("to") {
                return Err("to".into());
            }
            let t2 = self.ty()?;
            return Ok(I::Cast(k, t, t2, a, dd));
        }
        match op {
            "icmp" => {
                self.flags();
                let p = match self.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("pred {}", x)),
                };
                let (t, a) = self.tyop()?;
                self.exp(b',')?;
                let b = self.opn(&t)?;
                Ok(I::Icmp(p, t, a, b, dd))
            }
            "fcmp" => {
                self.flags();
                let p = self.word().to_string();
                let (t, a) = self.tyop()?;
                self.exp(b',')?;
                let b = self.opn(&t)?;
                Ok(I::Fcmp(p, t, a, b, dd))
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.tyop()?;
                Ok(I::FNeg(t, a, dd))
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.exp(b',')?;
                let (_, p) = self.tyop()?;
                let al = self.find_align();
                Ok(I::Load(t, p, dd, al))
            }
            "store" => {
                self.flags();
                let (t, v) = self.tyop()?;
                self.exp(b',')?;
                let (_, p) = self.tyop()?;
                let al = self.find_align();
                Ok(I::Store(t, v, p, al))
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty()?;
                self.exp(b',')?;
                let (pt, p) = self.tyop()?;
                if pt != Ty::Ptr {
                    return Ok(I::Unsupported(line.to_string()));
                }
                let (off, terms) = self.gep_idx(&bt)?;
                Ok(I::Gep(p, off, terms, dd))
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1u64;
                if self.eat(b',') {
                    if !self.word_peek().starts_with("align") {
                        let (_, o) = self.tyop()?;
                        match o {
                            Opn::C(Val::C(x)) => n = x as u64,
                            _ => return Ok(I::Unsupported(line.to_string())),
                        }
                    }
                }
                let al = self.find_align();
                Ok(I::Alloca(t.size() * n, al, dd))
            }
            "br" => {
                if self.word_peek() == "label" {
                    Ok(I::Br(self.label()?))
                } else {
                    let (_, c) = self.tyop()?;
                    self.exp(b',')?;
                    let a = self.label()?;
                    self.exp(b',')?;
                    let b = self.label()?;
                    Ok(I::CondBr(c, a, b))
                }
            }
            "switch" => {
                let (t, v) = self.tyop()?;
                self.exp(b',')?;
                let def = self.label()?;
                self.exp(b'[')?;
                let mut cs = vec![];
                while !self.eat(b']') {
                    let (_, c) = self.tyop()?;
                    self.exp(b',')?;
                    let l = self.label()?;
                    match c {
                        Opn::C(Val::C(x)) => cs.push((x, l)),
                        _ => return Err("switch case".into()),
                    }
                }
                Ok(I::Switch(t.bits(), v, def, cs))
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    return Ok(I::Ret(None));
                }
                let o = self.opn(&t)?;
                Ok(I::Ret(Some(o)))
            }
            "unreachable" => Ok(I::Unreachable),
            "select" => {
                self.flags();
                let (ct, c) = self.tyop()?;
                self.exp(b',')?;
                let (t, a) = self.tyop()?;
                self.exp(b',')?;
                let (_, b) = self.tyop()?;
                Ok(I::Select(ct, t, c, a, b, dd))
            }
            "extractvalue" => {
                let (_, a) = self.tyop()?;
                let mut ix = vec![];
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.uint()? as usize);
                }
                Ok(I::ExtractValue(a, ix, dd))
            }
            "insertvalue" => {
                let (t, a) = self.tyop()?;
                self.exp(b',')?;
                let (_, v) = self.tyop()?;
                let mut ix = vec![];
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.uint()? as usize);
                }
                Ok(I::InsertValue(t, a, v, ix, dd))
            }
            "extractelement" => {
                let (_, a) = self.tyop()?;
                self.exp(b',')?;
                let (_, i) = self.tyop()?;
                Ok(I::ExtractElement(a, i, dd))
            }
            "insertelement" => {
                let (t, a) = self.tyop()?;
                self.exp(b',')?;
                let (_, v) = self.tyop()?;
                self.exp(b',')?;
                let (_, i) = self.tyop()?;
                Ok(I::InsertElement(t, a, v, i, dd))
            }
            "shufflevector" => {
                let (t, a) = self.tyop()?;
                self.exp(b',')?;
                let (_, b) = self.tyop()?;
                self.exp(b',')?;
                let (mt, m) = self.tyop()?;
                let mut mv = vec![];
                match m {
                    Opn::C(Val::Agg(v)) => {
                        for x in v.iter() {
                            mv.push(match x {
                                Val::C(k) => Some(*k as usize),
                                _ => None,
                            })
                        }
                    }
                    Opn::C(Val::Undef) => mv = vec![None; mt.nfields()],
                    _ => return Err("shuffle mask".into()),
                }
                Ok(I::Shuffle(t, a, b, mv, dd))
            }
            "freeze" => {
                let (t, a) = self.tyop()?;
                Ok(I::Freeze(t, a, dd))
            }
            "fence" => Ok(I::Nop),
            "atomicrmw" => {
                self.flags();
                let o = self.word().to_string();
                let (_, p) = self.tyop()?;
                self.exp(b',')?;
                let (t, v) = self.tyop()?;
                Ok(I::AtomicRmw(o, t, p, v, dd))
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyop()?;
                self.exp(b',')?;
                let (t, e) = self.tyop()?;
                self.exp(b',')?;
                let (_, n) = self.tyop()?;
                Ok(I::CmpXchg(t, p, e, n, dd))
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.exp(b'[')?;
                    let o = self.opn(&t)?;
                    self.exp(b',')?;
                    self.exp(b'%')?;
                    let n = self.name();
                    let b = *self.blocks.get(&n).ok_or(format!("phi block {}", n))?;
                    self.exp(b']')?;
                    inc.push((b, o));
                    if self.peek() == b',' {
                        let save = self.i;
                        self.i += 1;
                        if self.peek() == b'!' {
                            self.i = save;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                phis.push(Phi { d: dd, inc });
                Ok(I::Nop)
            }
            "call" | "invoke" => {
                self.flags();
                self.ret_attrs();
                let rty = self.ty()?;
                // function type of a variadic call
                if self.peek() == b'(' {
                    self.skip_parens();
                }
                let callee = match self.peek() {
                    b'@' => {
                        self.i += 1;
                        let mut n = self.name();
                        if let Some(t) = self.m.alias.get(&n) {
                            n = t.clone();
                        }
                        match self.m.fn_by_name.get(&n) {
                            Some(&f) => Callee::Fn(f),
                            None => return Err(format!("callee {}", n)),
                        }
                    }
                    b'%' => Callee::Ind(self.opn(&Ty::Ptr)?),
                    _ => {
                        if self.eatw("asm") {
                            let r = self.rest();
                            // skip keywords and two strings
                            loop {
                                if self.peek() == b'"' {
                                    break;
                                }
                                self.word();
                            }
                            for k in 0..2 {
                                self.exp(b'"')?;
                                self.i += self.s[self.i..].iter().position(|&x| x == b'"').unwrap() + 1;
                                if k == 0 {
                                    self.exp(b',')?;
                                }
                            }
                            Callee::Asm(r)
                        } else {
                            Callee::Ind(self.opn(&Ty::Ptr)?)
                        }
                    }
                };
                self.exp(b'(')?;
                let mut args = vec![];
                let mut tys = vec![];
                if !self.eat(b')') {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Opaque {
                            // metadata argument: skip to the end
                            args.push(Opn::C(Val::Undef));
                            tys.push(t);
                            let mut dpt = 0;
                            loop {
                                match self.peek() {
                                    b'(' => dpt += 1,
                                    b')' if dpt == 0 => break,
                                    b')' => dpt -= 1,
                                    b',' if dpt == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                        } else {
                            self.attrs();
                            args.push(self.opn(&t)?);
                            tys.push(t);
                        }
                        if self.eat(b',') {
                            continue;
                        }
                        self.exp(b')')?;
                        break;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    let r = std::str::from_utf8(&self.s[self.i..]).unwrap();
                    let k = r.find(" to label ").ok_or("invoke to")?;
                    self.i += k + 4;
                    normal = Some(self.label()?);
                }
                Ok(I::Call { callee, args, tys, rty, d, normal })
            }
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => Ok(I::Unsupported(line.to_string())),
            _ => Ok(I::Unsupported(line.to_string())),
        }
    }
}

impl Module {
    pub fn load(src: String) -> Module {
        let mut m = Module {
            src: String::new(),
            fns: vec![],
            globs: vec![],
            fn_by_name: HashMap::new(),
            glob_by_name: HashMap::new(),
            types: RefCell::new(HashMap::new()),
            type_src: HashMap::new(),
            alias: HashMap::new(),
        };
        let b = src.as_bytes();
        let mut pos = 0;
        let mut pretty = String::new();
        let n = b.len();
        let symname = |line: &str, at: usize| -> (String, usize) {
            let lb = line.as_bytes();
            if lb[at + 1] == b'"' {
                let e = line[at + 2..].find('"').unwrap() + at + 2;
                (line[at + 2..e].to_string(), e + 1)
            } else {
                let mut j = at + 1;
                while j < lb.len() && is_id(lb[j]) {
                    j += 1
                }
                (line[at + 1..j].to_string(), j)
            }
        };
        while pos < n {
            let e = src[pos..].find('\n').map(|k| pos + k).unwrap_or(n);
            let line = &src[pos..e];
            match b[pos] {
                b';' => {
                    if !line.starts_with("; Function Attrs") {
                        pretty = line[1..].trim().to_string();
                    }
                }
                b'd' if line.starts_with("define ") => {
                    let at = line.find('@').unwrap();
                    let (name, _) = symname(line, at);
                    let end = src[e..].find("\n}").unwrap() + e + 2;
                    m.fn_by_name.insert(name.clone(), m.fns.len() as u32);
                    m.fns.push(FnDecl {
                        name,
                        pretty: std::mem::take(&mut pretty),
                        body: Some((pos, end)),
                        parsed: RefCell::new(None),
                    });
                    pos = end + 1;
                    continue;
                }
                b'd' if line.starts_with("declare ") => {
                    let at = line.find('@').unwrap();
                    let (name, _) = symname(line, at);
                    m.fn_by_name.insert(name.clone(), m.fns.len() as u32);
                    m.fns.push(FnDecl { name, pretty: String::new(), body: None, parsed: RefCell::new(None) });
                    pretty.clear();
                }
                b'@' => {
                    let (name, j) = symname(line, 0);
                    let after = &line[j..];
                    if after.contains(" alias ") && !after.contains(" global ") && !after.contains(" constant ") {
                        let at = line.rfind('@').unwrap();
                        let (t, _) = symname(line, at);
                        m.alias.insert(name, t);
                    } else {
                        let gi = after.find(" global ");
                        let ci = after.find(" constant ");
                        let (k, l, constant) = match (gi, ci) {
                            (Some(g), Some(c)) if g < c => (g, 8, false),
                            (Some(g), None) => (g, 8, false),
                            (_, Some(c)) => (c, 10, true),
                            _ => {
                                pos = e + 1;
                                continue;
                            }
                        };
                        let external = after[..k].contains("external") || after[..k].contains("extern_weak");
                        m.glob_by_name.insert(name.clone(), m.globs.len() as u32);
                        m.globs.push(Glob {
                            name,
                            text: (pos + j + k + l, e),
                            constant,
                            external,
                            info: RefCell::new(None),
                        });
                    }
                    pretty.clear();
                }
                b'%' => {
                    let (name, j) = symname(line, 0);
                    let k = line[j..].find("type ").unwrap() + j + 5;
                    m.type_src.insert(name, (pos + k, e));
                }
                _ => {}
            }
            pos = e + 1;
        }
        m.src = src;
        m
    }
    fn named_ty(&self, n: &str) -> R<Ty> {
        if let Some(t) = self.types.borrow().get(n) {
            return Ok(t.clone());
        }
        let (a, b) = *self.type_src.get(n).ok_or(format!("type %{}", n))?;
        let mut p = P::new(self, &self.src[a..b]);
        let t = p.ty()?;
        self.types.borrow_mut().insert(n.to_string(), t.clone());
        Ok(t)
    }
    pub fn glob_info(&self, g: u32) -> R<(Ty, u64)> {
        if let Some(x) = &*self.globs[g as usize].info.borrow() {
            return Ok(x.clone());
        }
        let (a, b) = self.globs[g as usize].text;
        let line = &self.src[a..b];
        let mut p = P::new(self, line);
        let t = p.ty()?;
        let al = match line.rfind(", align ") {
            Some(k) => line[k + 8..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u64, |v, c| v * 10 + (c - b'0') as u64),
            None => t.align(),
        };
        *self.globs[g as usize].info.borrow_mut() = Some((t.clone(), al));
        Ok((t, al))
    }
    pub fn glob_init(&self, g: u32) -> R<Val> {
        let (a, b) = self.globs[g as usize].text;
        let mut p = P::new(self, &self.src[a..b]);
        let t = p.ty()?;
        p.konst(&t)
    }
    pub fn func(&self, f: u32) -> R<&'static Func> {
        if let Some(x) = *self.fns[f as usize].parsed.borrow() {
            return Ok(x);
        }
        let d = &self.fns[f as usize];
        let (a, b) = d.body.ok_or(format!("no body for {}", d.name))?;
        let r = self.parse_fn(f, &self.src[a..b]).map_err(|e| format!("parse {}: {}", d.name, e))?;
        let r: &'static Func = Box::leak(Box::new(r));
        *d.parsed.borrow_mut() = Some(r);
        Ok(r)
    }
    fn parse_fn(&self, idx: u32, text: &str) -> R<Func> {
        let d = &self.fns[idx as usize];
        let mut p = P::new(self, text);
        // header
        let hl = text.find('\n').unwrap();
        let header = &text[..hl];
        let at = header.find('@').unwrap();
        p.i = at + 1;
        p.name();
        p.exp(b'(')?;
        let mut nparams = 0;
        let mut unnamed = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    return Err("variadic definition".into());
                }
                p.ty()?;
                p.attrs();
                if p.eat(b'%') {
                    let n = p.name();
                    let k = p.locals.len() as u32;
                    p.locals.insert(n, k);
                } else {
                    let k = p.locals.len() as u32;
                    p.locals.insert(format!("{}", unnamed), k);
                    unnamed += 1;
                }
                nparams += 1;
                if p.eat(b',') {
                    continue;
                }
                p.exp(b')')?;
                break;
            }
        }
        // split into blocks and logical lines
        struct RB<'x> {
            name: String,
            lines: Vec<(usize, usize)>,
            _m: std::marker::PhantomData<&'x ()>,
        }
        let mut blocks: Vec<RB> = vec![];
        let mut pos = hl + 1;
        let tb = text.as_bytes();
        // in a numbered function the entry block's implicit name is the next number
        let mut first = true;
        while pos < text.len() {
            let e = text[pos..].find('\n').map(|k| pos + k).unwrap_or(text.len());
            let line = &text[pos..e];
            if line.is_empty() || line.starts_with(';') || line == "}" {
                pos = e + 1;
                continue;
            }
            if tb[pos] != b' ' {
                let name = if tb[pos] == b'"' {
                    let k = line[1..].find('"').unwrap() + 1;
                    line[1..k].to_string()
                } else {
                    line[..line.find(':').ok_or_else(|| format!("label line {}", line))?].to_string()
                };
                blocks.push(RB { name, lines: vec![], _m: Default::default() });
            } else {
                if first && blocks.is_empty() {
                    blocks.push(RB { name: format!("{}", nparams), lines: vec![], _m: Default::default() });
                }
                let t = line.trim_start();
                let cont = line.starts_with("   ") || t.starts_with(']');
                if t.starts_with("#dbg") || t.starts_with(';') {
                } else if cont {
                    let l = blocks.last_mut().unwrap().lines.last_mut().ok_or("continuation")?;
                    l.1 = e;
                } else {
                    blocks.last_mut().unwrap().lines.push((pos, e));
                }
            }
            first = false;
            pos = e + 1;
        }
        for (i, b) in blocks.iter().enumerate() {
            p.blocks.insert(b.name.clone(), i as u32);
        }
        let mut out = vec![];
        let mut ninst = 0;
        for b in &blocks {
            let mut phis = vec![];
            let mut ins = vec![];
            for &(a, e) in &b.lines {
                let line = &text[a..e];
                let i = p.inst(line, &mut phis).unwrap_or_else(|m| I::Unsupported(format!("{} in: {}", m, line)));
                if !matches!(i, I::Nop) {
                    ins.push(i);
                }
            }
            ninst += ins.len();
            out.push(Block { name: b.name.clone(), phis, ins });
        }
        Ok(Func {
            idx,
            name: d.name.clone(),
            pretty: if d.pretty.is_empty() { d.name.clone() } else { d.pretty.clone() },
            nparams,
            nregs: p.locals.len(),
            blocks: out,
            ninst,
        })
    }
}
