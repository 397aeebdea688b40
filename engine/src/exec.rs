//! Path-forking symbolic interpreter for the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub type Map<K, V> = HashMap<K, V, BuildH>;

#[derive(Clone, Default)]
pub struct Model {
    pub v: Vec<u8>,
    pub u: HashMap<u32, u128>,
}
impl Model {
    fn get(&self, id: u32) -> u128 {
        if id >= UNDEF_SYM_BASE {
            self.u.get(&id).copied().unwrap_or(0)
        } else {
            self.v.get(id as usize).copied().unwrap_or(0) as u128
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    blk: u32,
    ip: u32,
    base: usize,
    ret: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    globs: Rc<Map<u32, Rc<Obj>>>,
    pc: Vec<Ex>,
    known: Map<Ex, Ex>,
    model: Rc<Model>,
    nsym: u32,
    obs: Vec<Val>,
    live_heap: u64,
    alloc_limit: u64,
    enum_depth: u32,
    steps: u64,
    vfs: Vfs,
}

/// Modelled file system state: one table of files, one table of open descriptors.
#[derive(Clone, Default)]
pub struct Vfs {
    pub files: Vec<VFile>,
    pub fds: Vec<Option<(usize, u64, u32)>>, // file index, position, flags
    pub errno: u32,
    pub fault: u32,  // op index at which an injected fault fires (u32::MAX: never)
    pub ops: u32,
    pub maps: Vec<u64>,
}
#[derive(Clone)]
pub struct VFile {
    pub name: Vec<u8>,
    pub data: Vec<Val>,
    pub exists: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub at: String,
    pub input: Vec<u8>,
}

/// Reasons for which execution of the current state stops.
pub enum Stop {
    Done,
    Infeasible,
    Bad(String, String), // kind, message
    Engine(String),
}
type R<T> = Result<T, Stop>;

fn eng<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Engine(s.into()))
}
fn ub<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Bad("ub".into(), s.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
    None,
    Bytes,
    Assume,
    Check,
    Cover,
    Expect,
    Observe,
    LiveHeap,
    AllocLimit,
    Panic,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    Extern,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub insts: u64,
    pub forks: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_us: u64,
    pub max_query_us: u64,
    pub checks: u64,
    pub sym_checks: u64,
    pub procs: u64,
    pub max_syms: u64,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub solver: Solver,
    sp: Vec<Sp>,
    gcache: Map<u32, Rc<Obj>>,
    qcache: HashMap<Vec<Ex>, Option<Rc<Vec<(u32, u128)>>>, BuildH>,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub vkeys: HashMap<String, u64>,
    pub engine_errs: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub expects: HashSet<String>,
    pub fn_seen: Vec<bool>,
    pub blk_cov: Vec<Option<Box<[bool]>>>,
    pub samples: Vec<(Vec<u8>, u64)>,
    pub max_samples: usize,
    pub rng: u64,
    pub work: Vec<State>,
    pub concrete: Option<Vec<u8>>,
    pub max_concretize: u32,
    pub max_steps: u64,
    pub check_align: bool,
    undef_w: Map<u32, u32>,
    pend: Option<Rc<Model>>,
}

fn c(v: u128) -> Val {
    Val::C(v)
}

impl Exec {
    pub fn new(m: Module, timeout_ms: u32) -> Exec {
        let n = m.fns.len();
        let mut sp = vec![Sp::None; n];
        for (i, f) in m.fns.iter().enumerate() {
            let nm = f.name.as_str();
            let p = f.pretty.as_str();
            sp[i] = match nm {
                "sx_bytes" => Sp::Bytes,
                "sx_assume" => Sp::Assume,
                "sx_check" => Sp::Check,
                "sx_cover" => Sp::Cover,
                "sx_expect" => Sp::Expect,
                "sx_observe" => Sp::Observe,
                "sx_live_heap" => Sp::LiveHeap,
                "sx_alloc_limit" => Sp::AllocLimit,
                _ => {
                    if nm.contains("7___rustc") && nm.ends_with("___rust_alloc") {
                        Sp::Alloc
                    } else if nm.contains("7___rustc") && nm.ends_with("___rust_alloc_zeroed") {
                        Sp::AllocZ
                    } else if nm.contains("7___rustc") && nm.ends_with("___rust_dealloc") {
                        Sp::Dealloc
                    } else if nm.contains("7___rustc") && nm.ends_with("___rust_realloc") {
                        Sp::Realloc
                    } else if nm.contains("___rust_no_alloc_shim_is_unstable") {
                        Sp::Nop
                    } else if p.starts_with("core::panicking::")
                        || p.starts_with("std::panicking::rust_panic")
                        || p.starts_with("std::panicking::panic_with_hook")
                        || p.starts_with("std::panicking::begin_panic")
                        || p.starts_with("alloc::alloc::handle_alloc_error")
                        || p.starts_with("std::alloc::rust_oom")
                        || p.starts_with("std::process::abort")
                    {
                        Sp::Panic
                    } else if f.body.is_none() {
                        Sp::Extern
                    } else {
                        Sp::None
                    }
                }
            };
        }
        Exec {
            ar: Arena::new(),
            solver: Solver::new(timeout_ms),
            sp,
            gcache: Map::default(),
            qcache: HashMap::with_hasher(BuildH),
            st: Stats::default(),
            violations: vec![],
            vkeys: HashMap::new(),
            engine_errs: BTreeMap::new(),
            covers: BTreeMap::new(),
            expects: HashSet::new(),
            fn_seen: vec![false; n],
            blk_cov: (0..n).map(|_| None).collect(),
            samples: vec![],
            max_samples: 0,
            rng: 1,
            work: vec![],
            concrete: None,
            max_concretize: 5000,
            max_steps: 200_000_000,
            check_align: true,
            undef_w: Map::default(),
            pend: None,
            m,
        }
    }

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let f = match self.m.fn_by_name.get(entry) {
            Some(f) => *f,
            None => self.m.fns.iter().position(|f| f.body.is_some() && f.pretty == entry).ok_or(format!("no entry {}", entry))? as u32,
        };
        let func = self.m.func(f)?;
        self.fn_seen[f as usize] = true;
        self.blk_cov[f as usize] = Some(vec![false; func.blocks.len()].into());
        self.cover_blk(f, 0);
        Ok(State {
            frames: vec![Frame { f: func, blk: 0, ip: 0, base: 0, ret: None, normal: None, allocas: vec![] }],
            regs: vec![Val::Undef; func.nregs],
            objs: vec![],
            free: vec![],
            globs: Rc::new(Map::default()),
            pc: vec![],
            known: Map::default(),
            model: Rc::new(Model::default()),
            nsym: 0,
            obs: vec![],
            live_heap: 0,
            alloc_limit: 0,
            enum_depth: 0,
            steps: 0,
            vfs: Vfs { fault: u32::MAX, ..Default::default() },
        })
    }
    fn cover_blk(&mut self, f: u32, b: u32) {
        if let Some(c) = &mut self.blk_cov[f as usize] {
            c[b as usize] = true;
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---------------------------------------------------------------- solver
    fn eval_model(&self, m: &Model, e: Ex) -> u128 {
        let mut memo = Map::default();
        self.ar.eval(e, &|id| m.get(id), &mut memo)
    }
    fn sym_w(&self, id: u32) -> u32 {
        // input symbols are bytes; undefined ones carry their own width
        if id < UNDEF_SYM_BASE {
            8
        } else {
            self.undef_w.get(&id).copied().unwrap_or(8)
        }
    }
    /// Is pc /\ extra satisfiable? Returns a full model.
    fn solve(&mut self, st: &State, extra: Ex) -> R<Option<Rc<Model>>> {
        if let Some(v) = self.ar.cval(extra) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        // slice of the path condition connected to `extra`
        let mut inset: HashSet<u32, BuildH> = HashSet::with_hasher(BuildH);
        for &s in self.ar.symbols(extra).iter() {
            inset.insert(s);
        }
        let mut used = vec![false; st.pc.len()];
        let mut conj = vec![extra];
        loop {
            let mut changed = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let sy = self.ar.symbols(p);
                if sy.iter().any(|s| inset.contains(s)) {
                    used[i] = true;
                    conj.push(p);
                    for &s in sy.iter() {
                        if inset.insert(s) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        conj.sort_unstable();
        conj.dedup();
        if let Some(r) = self.qcache.get(&conj) {
            self.st.cache_hits += 1;
            return Ok(r.clone().map(|v| self.merge(st, &v)));
        }
        let mut syms: Vec<(u32, u32)> = inset.iter().map(|&s| (s, 0)).collect();
        syms.sort_unstable();
        for s in syms.iter_mut() {
            s.1 = self.sym_w(s.0);
        }
        let t = Instant::now();
        let r = self.solver.check(&self.ar, &conj, &syms);
        let us = t.elapsed().as_micros() as u64;
        self.st.queries += 1;
        self.st.solver_us += us;
        if us > self.st.max_query_us {
            self.st.max_query_us = us;
        }
        match r {
            Res::Sat(v) => {
                self.st.sat += 1;
                // the solver's answer is checked against our own evaluator
                let v = Rc::new(v);
                let m = self.merge(st, &v);
                for &e in &conj {
                    if self.eval_model(&m, e) != 1 {
                        return eng("solver model does not satisfy the query (encoding bug)");
                    }
                }
                self.qcache.insert(conj, Some(v));
                Ok(Some(m))
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.qcache.insert(conj, None);
                Ok(None)
            }
            Res::Unknown => {
                self.st.unknown += 1;
                eng("solver returned unknown")
            }
        }
    }
    fn merge(&self, st: &State, v: &[(u32, u128)]) -> Rc<Model> {
        let mut m = (*st.model).clone();
        for &(id, x) in v {
            if id >= UNDEF_SYM_BASE {
                m.u.insert(id, x);
            } else {
                if m.v.len() <= id as usize {
                    m.v.resize(id as usize + 1, 0);
                }
                m.v[id as usize] = x as u8;
            }
        }
        Rc::new(m)
    }
    fn add(&mut self, st: &mut State, e: Ex) {
        if self.ar.cval(e).is_some() {
            return;
        }
        let n = self.ar.node(e);
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if st.known.contains_key(&e) && self.ar.cval(st.known[&e]) == Some(1) {
            return;
        }
        let one = self.ar.konst(1, 1);
        let zero = self.ar.konst(1, 0);
        st.known.insert(e, one);
        if n.op == Op::Eq && self.ar.cval(n.b).is_some() {
            st.known.insert(n.a, n.b);
        }
        if n.op == Op::Xor && self.ar.cval(n.b) == Some(1) {
            st.known.insert(n.a, zero);
        } else {
            let ne = self.ar.not1(e);
            st.known.insert(ne, zero);
        }
        st.pc.push(e);
    }
    fn simp(&mut self, st: &State, e: Ex) -> Ex {
        if self.ar.cval(e).is_some() {
            return e;
        }
        if let Some(&k) = st.known.get(&e) {
            return k;
        }
        if st.known.is_empty() {
            return e;
        }
        let mut memo = Map::default();
        self.ar.subst(e, &st.known, &mut memo)
    }
    /// Decide a boolean; forks when both outcomes are possible (the current state takes the
    /// outcome of its model).
    fn decide(&mut self, st: &mut State, e: Ex, fork_other: bool) -> R<bool> {
        let e = self.simp(st, e);
        if let Some(v) = self.ar.cval(e) {
            return Ok(v == 1);
        }
        if self.ar.undef(e) {
            return ub("control flow depends on uninitialised memory");
        }
        let side = self.eval_model(&st.model, e) == 1;
        let ne = self.ar.not1(e);
        let (mine, other) = if side { (e, ne) } else { (ne, e) };
        if let Some(m2) = self.solve(st, other)? {
            if fork_other {
                let mut s2 = st.clone();
                s2.model = m2;
                self.add(&mut s2, other);
                self.st.forks += 1;
                self.work.push(s2);
            }
            self.add(st, mine);
        } else {
            // implied: remember without growing the path condition
            let k = self.ar.konst(1, side as u128);
            let nk = self.ar.konst(1, !side as u128);
            st.known.insert(e, k);
            st.known.insert(ne, nk);
        }
        Ok(side)
    }
    /// Can e be true? (no forking, no constraint added)
    fn may(&mut self, st: &State, e: Ex) -> R<Option<Rc<Model>>> {
        let e = self.simp(st, e);
        if let Some(v) = self.ar.cval(e) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        if self.eval_model(&st.model, e) == 1 {
            return Ok(Some(st.model.clone()));
        }
        self.solve(st, e)
    }
    /// Replace a value by a constant, forking one state per other feasible value.
    /// The fork re-executes the current instruction, so call this before any side effect.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32, what: &str) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            Val::Undef => ub(format!("{} is uninitialised", what)),
            Val::Agg(_) => eng("concretize aggregate"),
            Val::S(e) => {
                let e = self.simp(st, *e);
                if let Some(x) = self.ar.cval(e) {
                    return Ok(x);
                }
                if self.ar.undef(e) {
                    return ub(format!("{} depends on uninitialised memory", what));
                }
                let x = self.eval_model(&st.model, e);
                let k = self.ar.konst(w, x);
                let eq = self.ar.bin(Op::Eq, e, k);
                let ne = self.ar.not1(eq);
                if let Some(m2) = self.solve(st, ne)? {
                    let mut s2 = st.clone();
                    s2.model = m2;
                    s2.enum_depth += 1;
                    if s2.enum_depth > self.max_concretize {
                        return eng(format!("more than {} values for {}", self.max_concretize, what));
                    }
                    self.add(&mut s2, ne);
                    self.st.forks += 1;
                    self.work.push(s2);
                }
                self.add(st, eq);
                st.known.insert(e, k);
                Ok(x)
            }
        }
    }

    // ---------------------------------------------------------------- values
    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::C(x) => self.ar.konst(w, *x),
            Val::S(e) => *e,
            Val::Undef => self.fresh_undef(w),
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn fresh_undef(&mut self, w: u32) -> Ex {
        let e = self.ar.fresh_undef(w);
        let id = self.ar.node(e).a;
        self.undef_w.insert(id, w);
        e
    }
    fn mk(&mut self, st: &State, e: Ex) -> Val {
        if let Some(x) = self.ar.cval(e) {
            return Val::C(x);
        }
        if let Some(&k) = st.known.get(&e) {
            if let Some(x) = self.ar.cval(k) {
                return Val::C(x);
            }
        }
        Val::S(e)
    }
    #[inline]
    fn opn(&self, st: &State, o: &Opn) -> Val {
        match o {
            Opn::R(r) => st.regs[st.frames.last().unwrap().base + *r as usize].clone(),
            Opn::C(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        let b = st.frames.last().unwrap().base;
        st.regs[b + d as usize] = v;
    }
    fn lanes(v: &Val, n: usize) -> Vec<Val> {
        match v {
            Val::Agg(a) => a.to_vec(),
            Val::Undef => vec![Val::Undef; n],
            x => vec![x.clone(); n],
        }
    }
    fn binop(&mut self, st: &State, op: BinOp, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, et) = t {
            let (x, y) = (Self::lanes(a, *n as usize), Self::lanes(b, *n as usize));
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.binop(st, op, et, &x[i], &y[i])?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            _ => return self.fbin(st, op, t, a, b),
        };
        let w = t.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if *y == 0 && matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                return ub("division by zero");
            }
            return Ok(Val::C(fold(o, w, *x, *y).unwrap()));
        }
        if matches!(a, Val::Undef) || matches!(b, Val::Undef) {
            // x & 0, x * 0 stay defined
            if matches!(o, Op::And | Op::Mul) {
                if let (Val::C(0), _) | (_, Val::C(0)) = (a, b) {
                    return Ok(Val::C(0));
                }
            }
            if o != Op::And && o != Op::Or {
                return Ok(Val::Undef);
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && self.ar.cval(y).is_none() {
            let z = self.ar.konst(w, 0);
            let q = self.ar.bin(Op::Eq, y, z);
            if let Some(m) = self.may(st, q)? {
                self.pend = Some(m);
                return ub("possible division by zero");
            }
        }
        let e = self.ar.bin(o, x, y);
        Ok(self.mk(st, e))
    }
    fn fbin(&mut self, st: &State, op: BinOp, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        let w = match t {
            Ty::Double => 64,
            Ty::Float => 32,
            _ => return eng("fbin type"),
        };
        let o = match op {
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            _ => {
                return match (a, b) {
                    (Val::C(x), Val::C(y)) => Ok(Val::C(if w == 64 {
                        (f64::from_bits(*x as u64) % f64::from_bits(*y as u64)).to_bits() as u128
                    } else {
                        (f32::from_bits(*x as u32) % f32::from_bits(*y as u32)).to_bits() as u128
                    })),
                    _ => eng("symbolic floating point remainder"),
                }
            }
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Ok(Val::C(fold(o, w, *x, *y).unwrap()));
        }
        if matches!(a, Val::Undef) || matches!(b, Val::Undef) {
            return Ok(Val::Undef);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.bin(o, x, y);
        Ok(self.mk(st, e))
    }
    fn fcmp(&mut self, st: &State, p: &str, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, et) = t {
            let (x, y) = (Self::lanes(a, *n as usize), Self::lanes(b, *n as usize));
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.fcmp(st, p, et, &x[i], &y[i])?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        if !matches!(t, Ty::Double | Ty::Float) {
            return eng("fcmp type");
        }
        if matches!(a, Val::Undef) || matches!(b, Val::Undef) {
            return Ok(Val::Undef);
        }
        let w = t.bits();
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let (eq, lt, un) = self.ar.fcmp(x, y);
        let ord = self.ar.not1(un);
        let ge = self.ar.not1(lt); // unordered or greater or equal
        let le = self.ar.bin(Op::Or, lt, eq);
        let gt = self.ar.not1(le); // unordered or greater
        let and = |me: &mut Self, x, y| me.ar.bin(Op::And, x, y);
        let e = match p {
            "oeq" => eq,
            "ogt" => and(self, ord, gt),
            "oge" => and(self, ord, ge),
            "olt" => lt,
            "ole" => le,
            "one" => {
                let n = self.ar.not1(eq);
                and(self, ord, n)
            }
            "ord" => ord,
            "uno" => un,
            "ueq" => self.ar.bin(Op::Or, un, eq),
            "ugt" => gt,
            "uge" => ge,
            "ult" => self.ar.bin(Op::Or, un, lt),
            "ule" => self.ar.bin(Op::Or, un, le),
            "une" => self.ar.not1(eq),
            "true" => self.ar.konst(1, 1),
            "false" => self.ar.konst(1, 0),
            _ => return eng("fcmp"),
        };
        Ok(self.mk(st, e))
    }
    fn icmp(&mut self, st: &State, p: Pred, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, et) = t {
            let (x, y) = (Self::lanes(a, *n as usize), Self::lanes(b, *n as usize));
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.icmp(st, p, et, &x[i], &y[i])?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        let w = t.bits();
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let r = fold(op, w, *x, *y).unwrap();
            return Ok(Val::C(r ^ neg as u128));
        }
        if matches!(a, Val::Undef) || matches!(b, Val::Undef) {
            return Ok(Val::Undef);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut e = self.ar.bin(op, x, y);
        if neg {
            e = self.ar.not1(e);
        }
        Ok(self.mk(st, e))
    }
    fn cast(&mut self, st: &State, k: CastK, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if let (Ty::Vec(n, et), Ty::Vec(n2, tt)) = (from, to) {
            if n == n2 {
                let x = Self::lanes(a, *n as usize);
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(self.cast(st, k, et, tt, &x[i])?);
                }
                return Ok(Val::Agg(Rc::new(r)));
            }
        }
        if matches!(a, Val::Undef) {
            return Ok(Val::Undef);
        }
        match k {
            CastK::Bit => {
                if from.is_scalar() && to.is_scalar() {
                    let (fw, tw) = (from.bits(), to.bits());
                    return Ok(match a {
                        Val::C(x) => Val::C(*x & mask(tw)),
                        Val::S(e) => {
                            let r = if tw < fw { self.ar.extract(*e, 0, tw) } else { self.ar.zext(*e, tw) };
                            self.mk(st, r)
                        }
                        _ => unreachable!(),
                    });
                }
                // vector <-> integer / vector
                let bits = self.flatten(from, a);
                self.unflatten(st, to, &bits)
            }
            CastK::Trunc | CastK::ZExt | CastK::SExt => {
                let (fw, tw) = (from.bits(), to.bits());
                Ok(match a {
                    Val::C(x) => Val::C(match k {
                        CastK::Trunc => *x & mask(tw),
                        CastK::ZExt => *x,
                        _ => (sext128(*x, fw) as u128) & mask(tw),
                    }),
                    Val::S(e) => {
                        let r = match k {
                            CastK::Trunc => self.ar.extract(*e, 0, tw),
                            CastK::ZExt => self.ar.zext(*e, tw),
                            _ => self.ar.sext(*e, tw),
                        };
                        self.mk(st, r)
                    }
                    _ => return eng("cast aggregate"),
                })
            }
            _ => {
                let kind = match k {
                    CastK::FpTrunc | CastK::FpExt => 0,
                    CastK::UiToFp => 1,
                    CastK::SiToFp => 2,
                    CastK::FpToUi => 3,
                    _ => 4,
                };
                self.fconv(st, kind, from, to, a)
            }
        }
    }
    fn fconv(&mut self, st: &State, kind: u32, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        let x = match a {
            Val::Undef => return Ok(Val::Undef),
            Val::C(_) | Val::S(_) => self.ex(a, from.bits()),
            _ => return eng("floating point conversion of an aggregate"),
        };
        let e = self.ar.fcvt(x, kind, to.bits());
        Ok(self.mk(st, e))
    }
    /// bits of a scalar or vector value, as (expr, width) pieces low to high
    fn flatten(&mut self, t: &Ty, v: &Val) -> Vec<(Ex, u32)> {
        match t {
            Ty::Vec(n, et) => {
                let l = Self::lanes(v, *n as usize);
                let w = et.bits();
                l.iter().map(|x| (self.ex(x, w), w)).collect()
            }
            _ => {
                let w = t.bits();
                vec![(self.ex(v, w), w)]
            }
        }
    }
    fn unflatten(&mut self, st: &State, t: &Ty, bits: &[(Ex, u32)]) -> R<Val> {
        let take = |ar: &mut Arena, lo: u32, w: u32| -> Ex {
            let mut acc: Option<Ex> = None;
            let mut pos = 0;
            for &(e, ew) in bits {
                let (s, en) = (pos.max(lo), (pos + ew).min(lo + w));
                if s < en {
                    let p = ar.extract(e, s - pos, en - s);
                    acc = Some(match acc {
                        None => p,
                        Some(a) => ar.concat(p, a),
                    });
                }
                pos += ew;
            }
            acc.unwrap()
        };
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let mut r = vec![];
                for i in 0..*n as u32 {
                    let e = take(&mut self.ar, i * w, w);
                    r.push(self.mk(st, e));
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            _ => {
                let e = take(&mut self.ar, 0, t.bits());
                Ok(self.mk(st, e))
            }
        }
    }

    // ---------------------------------------------------------------- memory
    fn nglob(&self) -> u64 {
        self.m.globs.len() as u64 + 1
    }
    fn materialize(&mut self, g: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&g) {
            return Ok(o.clone());
        }
        let (t, al) = self.m.glob_info(g).map_err(Stop::Engine)?;
        let v = self.m.glob_init(g).map_err(|e| Stop::Engine(format!("global {}: {}", self.m.globs[g as usize].name, e)))?;
        let kind = if self.m.globs[g as usize].constant { Kind::Const } else { Kind::Global };
        let mut o = Obj::new(t.size(), al, kind, false);
        self.write_val(&mut o, 0, &t, &v);
        let o = Rc::new(o);
        self.gcache.insert(g, o.clone());
        Ok(o)
    }
    fn write_val(&mut self, o: &mut Obj, off: u64, t: &Ty, v: &Val) {
        match t {
            Ty::Arr(..) | Ty::Struct(..) => {
                for i in 0..t.nfields() {
                    let f = match v {
                        Val::Agg(a) => a[i].clone(),
                        _ => Val::Undef,
                    };
                    let ft = t.field_ty(i);
                    if matches!(v, Val::Undef) && ft == Ty::Int(8) && matches!(t, Ty::Arr(..)) {
                        o.fill(off, t.size(), B::U);
                        return;
                    }
                    self.write_val(o, off + t.field_off(i), &ft, &f);
                }
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 == 0 {
                    let l = Self::lanes(v, *n as usize);
                    let sz = et.bits() as u64 / 8;
                    for (i, x) in l.iter().enumerate() {
                        self.write_val(o, off + i as u64 * sz, et, x);
                    }
                } else {
                    let b = self.flatten(t, v);
                    let tot: u32 = b.iter().map(|x| x.1).sum();
                    let mut acc = b[0].0;
                    for &(e, _) in &b[1..] {
                        acc = self.ar.concat(e, acc);
                    }
                    let w = (tot + 7) / 8 * 8;
                    let e = self.ar.zext(acc, w);
                    self.write_val(o, off, &Ty::Int(w), &Val::S(e));
                }
            }
            _ => {
                let n = t.store_size();
                match v {
                    Val::C(x) => o.set_c(off, n, *x),
                    Val::Undef => o.fill(off, n, B::U),
                    Val::S(e) => {
                        let w = t.bits();
                        let e = if (w as u64) < n * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                        for i in 0..n {
                            let b = self.ar.extract(e, i as u32 * 8, 8);
                            match self.ar.cval(b) {
                                Some(x) => o.set(off + i, B::C(x as u8)),
                                None => o.set(off + i, B::S(b)),
                            }
                        }
                    }
                    Val::Agg(_) => panic!("agg store"),
                }
            }
        }
    }
    fn read_val(&mut self, st: &State, o: &Obj, off: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Arr(..) | Ty::Struct(..) => {
                let mut r = vec![];
                for i in 0..t.nfields() {
                    let ft = t.field_ty(i);
                    r.push(self.read_val(st, o, off + t.field_off(i), &ft)?);
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 == 0 {
                    let sz = et.bits() as u64 / 8;
                    let mut r = vec![];
                    for i in 0..*n {
                        r.push(self.read_val(st, o, off + i * sz, et)?);
                    }
                    Ok(Val::Agg(Rc::new(r)))
                } else {
                    let w = t.store_size() as u32 * 8;
                    let v = self.read_val(st, o, off, &Ty::Int(w))?;
                    let e = self.ex(&v, w);
                    self.unflatten(st, t, &[(e, w)])
                }
            }
            _ => {
                let n = t.store_size();
                let w = t.bits();
                if let Some(x) = o.get_c(off, n) {
                    return Ok(Val::C(x & mask(w)));
                }
                let mut all_u = true;
                for i in 0..n {
                    if o.get(off + i) != B::U {
                        all_u = false;
                    }
                }
                if all_u && n > 0 {
                    return Ok(Val::Undef);
                }
                let mut acc: Option<Ex> = None;
                for i in 0..n {
                    let b = match o.get(off + i) {
                        B::C(x) => self.ar.konst(8, x as u128),
                        B::S(e) => st.known.get(&e).copied().filter(|&k| self.ar.cval(k).is_some()).unwrap_or(e),
                        B::U => self.fresh_undef(8),
                    };
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.ar.concat(b, a),
                    });
                }
                let e = acc.unwrap();
                let e = if w < n as u32 * 8 { self.ar.extract(e, 0, w) } else { e };
                Ok(self.mk(st, e))
            }
        }
    }
    fn obj(&mut self, st: &State, addr: u64) -> R<Rc<Obj>> {
        let id = addr >> 32;
        let ng = self.nglob();
        if id == 0 {
            return ub(format!("access through invalid pointer {:#x}", addr));
        }
        if id < ng {
            let g = (id - 1) as u32;
            if let Some(o) = st.globs.get(&g) {
                return Ok(o.clone());
            }
            return self.materialize(g);
        }
        if id >= FN_BASE {
            return ub(format!("data access through invalid pointer {:#x}", addr));
        }
        match st.objs.get((id - ng) as usize) {
            Some(Some(o)) => Ok(o.clone()),
            _ => ub(format!("use of a dead or invalid object (pointer {:#x})", addr)),
        }
    }
    fn in_bounds(&mut self, st: &State, o: &Obj, addr: u64, n: u64, what: &str) -> R<u64> {
        let off = (addr & 0xffff_ffff).wrapping_sub(OBJ_OFF);
        if (addr & 0xffff_ffff) < OBJ_OFF || off > o.size || n > o.size - off {
            return ub(format!("out-of-bounds {} of {} bytes at offset {} of a {}-byte {:?} object", what, n, off as i64, o.size, o.kind));
        }
        if let Some(sz) = o.size_sym {
            // need off + n <= size for every feasible size
            let k = self.ar.konst(64, (off + n) as u128);
            let bad = self.ar.bin(Op::Ult, sz, k);
            if let Some(m) = self.may(st, bad)? {
                self.pend = Some(m);
                return ub(format!("possible out-of-bounds {} of {} bytes at offset {} of an object of symbolic size", what, n, off));
            }
        }
        Ok(off)
    }
    fn with_obj_mut<T>(&mut self, st: &mut State, addr: u64, f: impl FnOnce(&mut Self, &mut Obj) -> T) -> R<T> {
        let id = addr >> 32;
        let ng = self.nglob();
        if id < ng {
            let g = (id - 1) as u32;
            if !st.globs.contains_key(&g) {
                let o = self.materialize(g)?;
                Rc::make_mut(&mut st.globs).insert(g, o);
            }
            let mut o = Rc::make_mut(&mut st.globs).remove(&g).unwrap();
            if o.kind == Kind::Const {
                return ub("write to a constant");
            }
            let r = f(self, Rc::make_mut(&mut o));
            Rc::make_mut(&mut st.globs).insert(g, o);
            Ok(r)
        } else {
            let k = (id - ng) as usize;
            let mut o = st.objs[k].take().unwrap();
            let r = f(self, Rc::make_mut(&mut o));
            st.objs[k] = Some(o);
            Ok(r)
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, zero: bool) -> u64 {
        let o = Some(Rc::new(Obj::new(size, align, kind, zero)));
        let k = if kind == Kind::Stack && !st.free.is_empty() {
            let k = st.free.pop().unwrap();
            st.objs[k as usize] = o;
            k
        } else {
            st.objs.push(o);
            st.objs.len() as u32 - 1
        };
        ((self.nglob() + k as u64) << 32) + OBJ_OFF
    }
    /// Concrete address for an access of n bytes; symbolic addresses are split by feasible value.
    fn addr(&mut self, st: &mut State, v: &Val, n: u64, what: &str) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x as u64),
            Val::Undef => ub(format!("{} through an uninitialised pointer", what)),
            Val::Agg(_) => eng("address aggregate"),
            Val::S(e) => {
                let e = self.simp(st, *e);
                if let Some(x) = self.ar.cval(e) {
                    return Ok(x as u64);
                }
                let a0 = self.eval_model(&st.model, e) as u64;
                let o = self.obj(st, a0)?;
                // values that stay in this object's region but outside its bounds?
                let base = (a0 >> 32 << 32) + OBJ_OFF;
                if o.size_sym.is_none() {
                    if n > o.size {
                        return ub(format!("out-of-bounds {}", what));
                    }
                    let b = self.ar.konst(64, base as u128);
                    let rel = self.ar.bin(Op::Sub, e, b);
                    let lim = self.ar.konst(64, (o.size - n) as u128);
                    let inb = self.ar.bin(Op::Ule, rel, lim);
                    let lo = self.ar.konst(64, (base - OBJ_OFF) as u128);
                    let rel2 = self.ar.bin(Op::Sub, e, lo);
                    let k4 = self.ar.konst(64, 1 << 32);
                    let region = self.ar.bin(Op::Ult, rel2, k4);
                    let ninb = self.ar.not1(inb);
                    let bad = self.ar.bin(Op::And, ninb, region);
                    if let Some(m) = self.may(st, bad)? {
                        st.model = m;
                        return ub(format!("out-of-bounds {} of {} bytes (symbolic index) in a {}-byte object", what, n, o.size));
                    }
                }
                Ok(self.concretize(st, &Val::S(e), 64, "an address")? as u64)
            }
        }
    }
    fn load(&mut self, st: &mut State, p: &Val, t: &Ty, align: u64) -> R<Val> {
        let n = t.store_size();
        if n == 0 {
            return Ok(Val::Agg(Rc::new(vec![])));
        }
        // table lookup in a constant: build an ite chain instead of forking
        if let Val::S(e) = p {
            let e = self.simp(st, *e);
            if self.ar.cval(e).is_none() && t.is_scalar() {
                let a0 = self.eval_model(&st.model, e) as u64;
                if let Ok(o) = self.obj(st, a0) {
                    if o.kind == Kind::Const && o.all_concrete() && o.size / n <= 1024 && o.size >= n {
                        let base = (a0 >> 32 << 32) + OBJ_OFF;
                        let b = self.ar.konst(64, base as u128);
                        let rel = self.ar.bin(Op::Sub, e, b);
                        let lim = self.ar.konst(64, (o.size - n) as u128);
                        let oob = self.ar.bin(Op::Ult, lim, rel);
                        if let Some(m) = self.may(st, oob)? {
                            // may be another object or a real out-of-bounds access
                            if self.eval_model(&m, e) as u64 >> 32 == a0 >> 32 {
                                st.model = m;
                                return ub("out-of-bounds load from a constant table");
                            }
                        } else {
                            // one value per offset; offsets that are not multiples of n are infeasible or included
                            let w = t.bits();
                            let mut res: Option<(Ex, u128)> = None;
                            let mut off = 0;
                            let mut runs: Vec<(u64, u128)> = vec![];
                            // step 1 covers every alignment, step n when the index is provably scaled
                            let step = {
                                let k = self.ar.konst(64, n as u128);
                                let r = self.ar.bin(Op::URem, rel, k);
                                let z = self.ar.konst(64, 0);
                                let q = self.ar.bin(Op::Eq, r, z);
                                let nq = self.ar.not1(q);
                                if n > 1 && self.may(st, nq)?.is_none() {
                                    n
                                } else {
                                    1
                                }
                            };
                            while off + n <= o.size {
                                let v = o.get_c(off, n).unwrap_or(0) & mask(w);
                                if runs.last().map(|r| r.1) != Some(v) {
                                    runs.push((off, v));
                                }
                                off += step;
                            }
                            if runs.len() <= 300 {
                                for &(s, v) in runs.iter() {
                                    let k = self.ar.konst(w, v);
                                    res = Some(match res {
                                        None => (k, v),
                                        Some((r, _)) => {
                                            let sk = self.ar.konst(64, s as u128);
                                            let c = self.ar.bin(Op::Ult, rel, sk);
                                            (self.ar.ite(c, r, k), v)
                                        }
                                    });
                                }
                                let r = res.unwrap().0;
                                return Ok(self.mk(st, r));
                            }
                        }
                    }
                }
            }
        }
        let a = self.addr(st, p, n, "load")?;
        if self.check_align && align > 1 && a % align != 0 {
            return ub(format!("misaligned load (address % {} = {})", align, a % align));
        }
        let o = self.obj(st, a)?;
        let off = self.in_bounds(st, &o, a, n, "read")?;
        self.read_val(st, &o, off, t)
    }
    fn store(&mut self, st: &mut State, p: &Val, t: &Ty, v: &Val, align: u64) -> R<()> {
        let n = t.store_size();
        if n == 0 {
            return Ok(());
        }
        let a = self.addr(st, p, n, "store")?;
        if self.check_align && align > 1 && a % align != 0 {
            return ub(format!("misaligned store (address % {} = {})", align, a % align));
        }
        let o = self.obj(st, a)?;
        let off = self.in_bounds(st, &o, a, n, "write")?;
        drop(o);
        self.with_obj_mut(st, a, |s, o| s.write_val(o, off, t, v))
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val, overlap_ok: bool) -> R<()> {
        let n = self.concretize(st, n, 64, "a copy length")? as u64;
        if n == 0 {
            return Ok(());
        }
        let s = self.addr(st, s, n, "copy source")?;
        let d = self.addr(st, d, n, "copy destination")?;
        if !overlap_ok && s != d && s < d.wrapping_add(n) && d < s.wrapping_add(n) {
            return ub("copy_nonoverlapping with overlapping ranges");
        }
        let so = self.obj(st, s)?;
        let soff = self.in_bounds(st, &so, s, n, "copy read")?;
        let dobj = self.obj(st, d)?;
        let doff = self.in_bounds(st, &dobj, d, n, "copy write")?;
        drop(dobj);
        let (bytes, syms) = so.range(soff, n);
        drop(so);
        self.with_obj_mut(st, d, |_, o| o.put_range(doff, &bytes, &syms))
    }
    fn byte_at(&mut self, st: &State, o: &Obj, off: u64) -> Val {
        match o.get(off) {
            B::C(x) => Val::C(x as u128),
            B::S(e) => self.mk(st, e),
            B::U => Val::Undef,
        }
    }
    pub fn get_bytes(&mut self, st: &mut State, p: &Val, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let a = self.addr(st, p, n, "read")?;
        let o = self.obj(st, a)?;
        let off = self.in_bounds(st, &o, a, n, "read")?;
        Ok((0..n).map(|i| self.byte_at(st, &o, off + i)).collect())
    }
    pub fn put_bytes(&mut self, st: &mut State, p: &Val, v: &[Val]) -> R<()> {
        if v.is_empty() {
            return Ok(());
        }
        let a = self.addr(st, p, v.len() as u64, "write")?;
        let o = self.obj(st, a)?;
        let off = self.in_bounds(st, &o, a, v.len() as u64, "write")?;
        drop(o);
        self.with_obj_mut(st, a, |s, o| {
            for (i, x) in v.iter().enumerate() {
                s.write_val(o, off + i as u64, &Ty::Int(8), x);
            }
        })
    }
    fn cstr(&mut self, st: &mut State, p: &Val, n: u64) -> R<String> {
        let v = self.get_bytes(st, p, n)?;
        let b: Vec<u8> = v.iter().map(|x| if let Val::C(k) = x { *k as u8 } else { b'?' }).collect();
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    // ---------------------------------------------------------------- running
    pub fn trace(&self, st: &State) -> String {
        let mut v: Vec<&str> = st.frames.iter().rev().map(|f| f.f.pretty.as_str()).collect();
        v.truncate(14);
        v.join(" <- ")
    }
    fn input_of(&self, st: &State, m: &Model) -> Vec<u8> {
        if let Some(c) = &self.concrete {
            return c.clone();
        }
        (0..st.nsym).map(|i| m.get(i) as u8).collect()
    }
    pub fn report(&mut self, st: &State, kind: &str, msg: &str, m: &Model) {
        let at = self.trace(st);
        // one representative per (kind, message, innermost non-panic frames)
        let key = format!("{}|{}|{}", kind, msg, at);
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n <= 3 && self.violations.len() < 60 {
            let input = self.input_of(st, m);
            self.violations.push(Violation { kind: kind.into(), msg: msg.into(), at, input });
        }
    }
    fn obs_hash(&self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut memo = Map::default();
        for v in &st.obs {
            let x = match v {
                Val::C(x) => *x as u64,
                Val::S(e) => self.ar.eval(*e, &|id| st.model.get(id), &mut memo) as u64,
                _ => 0,
            };
            for i in 0..8 {
                h ^= (x >> (8 * i)) & 0xff;
                h = h.wrapping_mul(0x100000001b3);
            }
        }
        h
    }
    fn end_path(&mut self, st: &State) {
        self.st.paths += 1;
        self.st.max_syms = self.st.max_syms.max(st.nsym as u64);
        if self.max_samples > 0 {
            let item = |s: &Self| (s.input_of(st, &st.model), s.obs_hash(st));
            if self.samples.len() < self.max_samples {
                let it = item(self);
                self.samples.push(it);
            } else {
                let k = (self.rand() % self.st.paths) as usize;
                if k < self.max_samples {
                    let it = item(self);
                    self.samples[k] = it;
                }
            }
        }
    }
    /// Run until the state ends. Forked siblings are pushed on self.work.
    pub fn run(&mut self, mut st: State, stop: &dyn Fn(&mut Exec) -> bool) {
        let mut tick = 0u32;
        loop {
            let r = self.step(&mut st);
            match r {
                Ok(()) => {}
                Err(Stop::Done) => {
                    self.end_path(&st);
                    return;
                }
                Err(Stop::Infeasible) => {
                    self.st.infeasible += 1;
                    return;
                }
                Err(Stop::Bad(k, m)) => {
                    self.st.paths += 1;
                    let model = self.pend.take().unwrap_or_else(|| st.model.clone());
                    self.report(&st, &k, &m, &model);
                    return;
                }
                Err(Stop::Engine(m)) => {
                    let at = self.trace(&st);
                    *self.engine_errs.entry(format!("{} @ {}", m, at)).or_insert(0) += 1;
                    return;
                }
            }
            tick += 1;
            if tick & 0x3fff == 0 {
                if st.steps > self.max_steps {
                    let at = self.trace(&st);
                    *self.engine_errs.entry(format!("step limit @ {}", at)).or_insert(0) += 1;
                    return;
                }
                if stop(self) {
                    self.work.push(st);
                    return;
                }
            }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.blk = to;
        fr.ip = 0;
        let f = fr.f;
        let base = fr.base;
        let b = &f.blocks[to as usize];
        self.cover_blk(f.idx, to);
        if !b.phis.is_empty() {
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = p.inc.iter().find(|x| x.0 == from).expect("phi edge");
                let v = match &o.1 {
                    Opn::R(r) => st.regs[base + *r as usize].clone(),
                    Opn::C(v) => v.clone(),
                };
                tmp.push((p.d, v));
            }
            for (d, v) in tmp {
                st.regs[base + d as usize] = v;
            }
        }
    }
    fn cond(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(x) => Ok(*x == 1),
            Val::S(e) => self.decide(st, *e, true),
            _ => ub("branch on uninitialised value"),
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk, fr.ip)
        };
        self.st.insts += 1;
        st.steps += 1;
        let ins = &f.blocks[blk as usize].ins[ip as usize];
        match ins {
            I::Bin(op, t, a, b, d) => {
                let (x, y) = (self.opn(st, a), self.opn(st, b));
                let v = self.binop(st, *op, t, &x, &y)?;
                self.set(st, *d, v);
            }
            I::Icmp(p, t, a, b, d) => {
                let (x, y) = (self.opn(st, a), self.opn(st, b));
                let v = self.icmp(st, *p, t, &x, &y)?;
                self.set(st, *d, v);
            }
            I::Fcmp(p, t, a, b, d) => {
                let (x, y) = (self.opn(st, a), self.opn(st, b));
                let v = self.fcmp(st, p.as_str(), t, &x, &y)?;
                self.set(st, *d, v);
            }
            I::FNeg(t, a, d) => {
                let w = t.bits();
                let k = c(1u128 << (w - 1));
                let x = self.opn(st, a);
                let v = self.binop(st, BinOp::Xor, &Ty::Int(w), &x, &k)?;
                self.set(st, *d, v);
            }
            I::Cast(k, t, t2, a, d) => {
                let x = self.opn(st, a);
                let v = self.cast(st, *k, t, t2, &x)?;
                self.set(st, *d, v);
            }
            I::Load(t, p, d, al) => {
                let p = self.opn(st, p);
                let v = self.load(st, &p, t, *al)?;
                self.set(st, *d, v);
            }
            I::Store(t, v, p, al) => {
                let v = self.opn(st, v);
                let p = self.opn(st, p);
                self.store(st, &p, t, &v, *al)?;
            }
            I::Gep(b, off, terms, d) => {
                let base = self.opn(st, b);
                let mut v = match base {
                    Val::C(x) => c((x as u64).wrapping_add(*off) as u128),
                    Val::S(e) => {
                        let k = self.ar.konst(64, *off as u128);
                        let r = self.ar.bin(Op::Add, e, k);
                        self.mk(st, r)
                    }
                    Val::Undef => Val::Undef,
                    _ => return eng("vector gep"),
                };
                for (o, w, scale) in terms {
                    let i = self.opn(st, o);
                    v = match (v, i) {
                        (Val::C(x), Val::C(y)) => {
                            c((x as u64).wrapping_add((sext128(y, *w) as u64).wrapping_mul(*scale)) as u128)
                        }
                        (Val::Undef, _) | (_, Val::Undef) => Val::Undef,
                        (x, y) => {
                            let (xe, ye) = (self.ex(&x, 64), self.ex(&y, *w));
                            let ye = if *w < 64 { self.ar.sext(ye, 64) } else { ye };
                            let k = self.ar.konst(64, *scale as u128);
                            let m = self.ar.bin(Op::Mul, ye, k);
                            let r = self.ar.bin(Op::Add, xe, m);
                            self.mk(st, r)
                        }
                    };
                }
                self.set(st, *d, v);
            }
            I::Alloca(size, al, d) => {
                let a = self.alloc(st, *size, *al, Kind::Stack, false);
                let k = ((a >> 32) - self.nglob()) as u32;
                st.frames.last_mut().unwrap().allocas.push(k);
                self.set(st, *d, c(a as u128));
            }
            I::Br(l) => {
                self.jump(st, *l);
                return Ok(());
            }
            I::CondBr(v, a, b) => {
                let v = self.opn(st, v);
                let t = self.cond(st, &v)?;
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            I::Switch(w, v, def, cases) => {
                let v = self.opn(st, v);
                let e = match v {
                    Val::C(x) => {
                        let t = cases.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(*def);
                        self.jump(st, t);
                        return Ok(());
                    }
                    Val::S(e) => self.simp(st, e),
                    _ => return ub("switch on uninitialised value"),
                };
                if let Some(x) = self.ar.cval(e) {
                    let t = cases.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(*def);
                    self.jump(st, t);
                    return Ok(());
                }
                if self.ar.undef(e) {
                    return ub("switch depends on uninitialised memory");
                }
                // group by target
                let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                for &(x, t) in cases {
                    if t == *def {
                        continue;
                    }
                    match groups.iter_mut().find(|g| g.0 == t) {
                        Some(g) => g.1.push(x),
                        None => groups.push((t, vec![x])),
                    }
                }
                let mut conds: Vec<(u32, Ex)> = vec![];
                let mut none = self.ar.konst(1, 1);
                for (t, xs) in groups {
                    let mut any = self.ar.konst(1, 0);
                    for x in xs {
                        let k = self.ar.konst(*w, x);
                        let q = self.ar.bin(Op::Eq, e, k);
                        any = self.ar.bin(Op::Or, any, q);
                        let nq = self.ar.not1(q);
                        none = self.ar.bin(Op::And, none, nq);
                    }
                    conds.push((t, any));
                }
                conds.push((*def, none));
                let mut taken: Option<(u32, Ex)> = None;
                let mut nfeas = 0;
                let mut others = vec![];
                for (t, q) in conds {
                    if self.eval_model(&st.model, q) == 1 {
                        taken = Some((t, q));
                        nfeas += 1;
                    } else if let Some(m) = self.solve(st, q)? {
                        nfeas += 1;
                        others.push((t, q, m));
                    }
                }
                for (t, q, m) in others {
                    let mut s2 = st.clone();
                    s2.model = m;
                    self.add(&mut s2, q);
                    self.st.forks += 1;
                    self.jump(&mut s2, t);
                    self.work.push(s2);
                }
                let (t, q) = taken.expect("model satisfies no switch arm");
                if nfeas > 1 {
                    self.add(st, q);
                }
                self.jump(st, t);
                return Ok(());
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.opn(st, o));
                let fr = st.frames.pop().unwrap();
                for &k in &fr.allocas {
                    st.objs[k as usize] = None;
                    st.free.push(k);
                }
                st.regs.truncate(fr.base);
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, v) {
                    self.set(st, d, v);
                }
                if let Some(b) = fr.normal {
                    self.jump(st, b);
                } else {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                return Ok(());
            }
            I::Unreachable => return ub("reached `unreachable`"),
            I::Select(ct, t, cv, a, b, d) => {
                let cv = self.opn(st, cv);
                let (x, y) = (self.opn(st, a), self.opn(st, b));
                let v = if let Ty::Vec(n, _) = ct {
                    let (cl, xl, yl) =
                        (Self::lanes(&cv, *n as usize), Self::lanes(&x, *n as usize), Self::lanes(&y, *n as usize));
                    let et = t.field_ty(0);
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        r.push(self.select(st, &et, &cl[i], &xl[i], &yl[i])?);
                    }
                    Val::Agg(Rc::new(r))
                } else {
                    self.select(st, t, &cv, &x, &y)?
                };
                self.set(st, *d, v);
            }
            I::ExtractValue(a, ix, d) => {
                let mut v = self.opn(st, a);
                for &i in ix {
                    v = match v {
                        Val::Agg(x) => x[i].clone(),
                        Val::Undef => Val::Undef,
                        _ => return eng("extractvalue of scalar"),
                    };
                }
                self.set(st, *d, v);
            }
            I::InsertValue(t, a, v, ix, d) => {
                let x = self.opn(st, a);
                let v = self.opn(st, v);
                let r = Self::insert(t, &x, &v, ix);
                self.set(st, *d, r);
            }
            I::ExtractElement(a, i, d) => {
                let x = self.opn(st, a);
                let i = self.opn(st, i);
                let i = self.concretize(st, &i, 64, "lane index")? as usize;
                let v = match x {
                    Val::Agg(v) => v[i].clone(),
                    o => o,
                };
                self.set(st, *d, v);
            }
            I::InsertElement(t, a, v, i, d) => {
                let x = self.opn(st, a);
                let v = self.opn(st, v);
                let i = self.opn(st, i);
                let i = self.concretize(st, &i, 64, "lane index")? as usize;
                let mut l = Self::lanes(&x, t.nfields());
                l[i] = v;
                self.set(st, *d, Val::Agg(Rc::new(l)));
            }
            I::Shuffle(t, a, b, m, d) => {
                let n = t.nfields();
                let (x, y) = (self.opn(st, a), self.opn(st, b));
                let (x, y) = (Self::lanes(&x, n), Self::lanes(&y, n));
                let r = m
                    .iter()
                    .map(|k| match k {
                        Some(k) if *k < n => x[*k].clone(),
                        Some(k) => y[*k - n].clone(),
                        None => Val::Undef,
                    })
                    .collect();
                self.set(st, *d, Val::Agg(Rc::new(r)));
            }
            I::Freeze(t, a, d) => {
                let mut v = self.opn(st, a);
                if matches!(v, Val::Undef) && t.is_scalar() {
                    let e = self.fresh_undef(t.bits());
                    v = Val::S(e);
                }
                self.set(st, *d, v);
            }
            I::AtomicRmw(op, t, p, v, d) => {
                let p = self.opn(st, p);
                let v = self.opn(st, v);
                let old = self.load(st, &p, t, 1)?;
                let b = match op.as_str() {
                    "xchg" => None,
                    "add" => Some(BinOp::Add),
                    "sub" => Some(BinOp::Sub),
                    "and" => Some(BinOp::And),
                    "or" => Some(BinOp::Or),
                    "xor" => Some(BinOp::Xor),
                    _ => return eng(format!("atomicrmw {}", op)),
                };
                let new = match b {
                    None => v,
                    Some(b) => self.binop(st, b, t, &old, &v)?,
                };
                self.store(st, &p, t, &new, 1)?;
                self.set(st, *d, old);
            }
            I::CmpXchg(t, p, e, n, d) => {
                let p = self.opn(st, p);
                let e = self.opn(st, e);
                let n = self.opn(st, n);
                let old = self.load(st, &p, t, 1)?;
                let q = self.icmp(st, Pred::Eq, t, &old, &e)?;
                let ok = self.cond(st, &q)?;
                if ok {
                    self.store(st, &p, t, &n, 1)?;
                }
                self.set(st, *d, Val::Agg(Rc::new(vec![old, c(ok as u128)])));
            }
            I::Nop => {}
            I::Unsupported(s) => return eng(format!("unsupported instruction: {}", s.trim())),
            I::Call { callee, args, tys, rty, d, normal } => {
                return self.call(st, callee, args, tys, rty, *d, *normal);
            }
        }
        st.enum_depth = 0;
        st.frames.last_mut().unwrap().ip = ip + 1;
        Ok(())
    }
    fn insert(t: &Ty, x: &Val, v: &Val, ix: &[usize]) -> Val {
        if ix.is_empty() {
            return v.clone();
        }
        let mut l = Self::lanes(x, t.nfields());
        l[ix[0]] = Self::insert(&t.field_ty(ix[0]), &l[ix[0]], v, &ix[1..]);
        Val::Agg(Rc::new(l))
    }
    fn select(&mut self, st: &mut State, t: &Ty, cv: &Val, x: &Val, y: &Val) -> R<Val> {
        let e = match cv {
            Val::C(k) => return Ok(if *k == 1 { x.clone() } else { y.clone() }),
            Val::S(e) => self.simp(st, *e),
            _ => return Ok(Val::Undef),
        };
        if let Some(k) = self.ar.cval(e) {
            return Ok(if k == 1 { x.clone() } else { y.clone() });
        }
        if !t.is_scalar() {
            let t = self.decide(st, e, true)?;
            return Ok(if t { x.clone() } else { y.clone() });
        }
        if matches!(x, Val::Undef) {
            return Ok(y.clone());
        }
        if matches!(y, Val::Undef) {
            return Ok(x.clone());
        }
        let w = t.bits();
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = self.ar.ite(e, a, b);
        Ok(self.mk(st, r))
    }
    fn finish_call(&mut self, st: &mut State, d: Option<u32>, v: Val, normal: Option<u32>) -> R<()> {
        if let Some(d) = d {
            self.set(st, d, v);
        }
        st.enum_depth = 0;
        if let Some(b) = normal {
            self.jump(st, b);
        } else {
            st.frames.last_mut().unwrap().ip += 1;
        }
        Ok(())
    }
    fn call(
        &mut self,
        st: &mut State,
        callee: &Callee,
        args: &[Opn],
        tys: &[Ty],
        rty: &Ty,
        d: Option<u32>,
        normal: Option<u32>,
    ) -> R<()> {
        let f = match callee {
            Callee::Fn(f) => *f,
            Callee::Asm(s) => {
                // only the empty compiler barrier (black_box) is accepted
                if s.contains("\"\"") {
                    return self.finish_call(st, d, Val::Undef, normal);
                }
                return eng(format!("inline asm {}", s));
            }
            Callee::Ind(o) => {
                let v = self.opn(st, o);
                let a = self.concretize(st, &v, 64, "a function pointer")? as u64;
                let id = a >> 32;
                if id < FN_BASE || a & 0xffff_ffff != 0 || id - FN_BASE >= self.m.fns.len() as u64 {
                    return ub(format!("call through an invalid function pointer {:#x}", a));
                }
                (id - FN_BASE) as u32
            }
        };
        let av: Vec<Val> = args.iter().map(|o| self.opn(st, o)).collect();
        match self.sp[f as usize] {
            Sp::None => {
                let func = match self.m.func(f) {
                    Ok(x) => x,
                    Err(e) => return eng(e),
                };
                if func.nparams != av.len() {
                    return eng(format!("argument count calling {}", func.pretty));
                }
                if st.frames.len() > 3000 {
                    return eng("call depth limit");
                }
                if !self.fn_seen[f as usize] {
                    self.fn_seen[f as usize] = true;
                    self.blk_cov[f as usize] = Some(vec![false; func.blocks.len()].into());
                }
                self.cover_blk(f, 0);
                let base = st.regs.len();
                st.regs.resize(base + func.nregs, Val::Undef);
                for (i, v) in av.into_iter().enumerate() {
                    st.regs[base + i] = v;
                }
                st.enum_depth = 0;
                st.frames.push(Frame { f: func, blk: 0, ip: 0, base, ret: d, normal, allocas: vec![] });
                Ok(())
            }
            sp => {
                let v = self.special(st, sp, f, &av, tys, rty)?;
                self.finish_call(st, d, v, normal)
            }
        }
    }
    fn do_alloc(&mut self, st: &mut State, size: &Val, align: &Val, zero: bool) -> R<Val> {
        let al = self.concretize(st, align, 64, "an alignment")? as u64;
        let size = match size {
            Val::S(e) => {
                let e = self.simp(st, *e);
                self.mk(st, e)
            }
            o => o.clone(),
        };
        // no allocator on a 47-bit address space can satisfy such a request
        const HUGE: u128 = 1 << 47;
        match &size {
            Val::C(n) if *n >= HUGE => return Ok(c(0)),
            Val::S(e) => {
                let k = self.ar.konst(64, HUGE);
                let small = self.ar.bin(Op::Ult, *e, k);
                let big = self.ar.not1(small);
                if let Some(mb) = self.may(st, big)? {
                    match self.may(st, small)? {
                        None => return Ok(c(0)),
                        Some(ms) => {
                            let mut s2 = st.clone();
                            s2.model = mb;
                            self.add(&mut s2, big);
                            self.st.forks += 1;
                            self.work.push(s2);
                            st.model = ms;
                            self.add(st, small);
                        }
                    }
                }
            }
            _ => {}
        }
        if st.alloc_limit != 0 {
            match &size {
                Val::C(n) => {
                    if *n > st.alloc_limit as u128 {
                        let m = st.model.clone();
                        self.report(st, "assert", "an allocation is not bounded by the size of the input", &m);
                        return Err(Stop::Infeasible);
                    }
                }
                Val::S(e) => {
                    let k = self.ar.konst(64, st.alloc_limit as u128);
                    let over = self.ar.bin(Op::Ult, k, *e);
                    if let Some(m) = self.may(st, over)? {
                        self.report(st, "assert", "an allocation is not bounded by the size of the input", &m);
                        let ok = self.ar.not1(over);
                        match self.may(st, ok)? {
                            None => return Err(Stop::Infeasible),
                            Some(m) => {
                                st.model = m;
                                self.add(st, ok);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let a = match size {
            Val::C(n) => {
                if n > 1 << 31 {
                    // a huge concrete request: contents are never materialised
                    let a = self.alloc(st, 0xfffe_0000, al, Kind::Heap, zero);
                    let k = self.ar.konst(64, n);
                    self.with_obj_mut(st, a, |_, o| o.size_sym = Some(k))?;
                    a
                } else {
                    self.alloc(st, n as u64, al, Kind::Heap, zero)
                }
            }
            Val::S(e) => {
                let a = self.alloc(st, 0xfffe_0000, al, Kind::Heap, zero);
                self.with_obj_mut(st, a, |_, o| o.size_sym = Some(e))?;
                a
            }
            _ => return ub("allocation of uninitialised size"),
        };
        st.live_heap += 1;
        Ok(c(a as u128))
    }
    fn check_layout(&mut self, st: &mut State, p: &Val, size: &Val, align: &Val) -> R<u64> {
        let a = self.concretize(st, p, 64, "a deallocated pointer")? as u64;
        let o = self.obj(st, a)?;
        if o.kind != Kind::Heap || a & 0xffff_ffff != OBJ_OFF {
            return ub("deallocation of a pointer that is not the start of a heap allocation");
        }
        let al = self.concretize(st, align, 64, "an alignment")? as u64;
        if al != o.align {
            return ub(format!("deallocation with alignment {} of an allocation with alignment {}", al, o.align));
        }
        let want = match o.size_sym {
            Some(e) => e,
            None => self.ar.konst(64, o.size as u128),
        };
        let got = self.ex(size, 64);
        let q = self.ar.bin(Op::Eq, want, got);
        let nq = self.ar.not1(q);
        if let Some(m) = self.may(st, nq)? {
            st.model = m;
            return ub("deallocation with a size different from the allocation's");
        }
        Ok(a)
    }
    fn kill(&mut self, st: &mut State, a: u64) {
        let k = ((a >> 32) - self.nglob()) as usize;
        st.objs[k] = None;
        st.live_heap -= 1;
    }
    fn special(&mut self, st: &mut State, sp: Sp, f: u32, a: &[Val], tys: &[Ty], rty: &Ty) -> R<Val> {
        match sp {
            Sp::Bytes => {
                let n = self.concretize(st, &a[1], 64, "sx_bytes length")? as u64;
                let mut v = vec![];
                for _ in 0..n {
                    let id = st.nsym;
                    st.nsym += 1;
                    if let Some(cv) = &self.concrete {
                        v.push(c(cv.get(id as usize).copied().unwrap_or(0) as u128));
                    } else {
                        let e = self.ar.sym(id, 8);
                        v.push(Val::S(e));
                    }
                }
                self.put_bytes(st, &a[0], &v)?;
                Ok(Val::Undef)
            }
            Sp::Assume => {
                let e = self.ex(&a[0], 1);
                let e = self.simp(st, e);
                if let Some(v) = self.ar.cval(e) {
                    return if v == 1 { Ok(Val::Undef) } else { Err(Stop::Infeasible) };
                }
                if self.ar.undef(e) {
                    return ub("assumption on uninitialised memory");
                }
                match self.may(st, e)? {
                    None => Err(Stop::Infeasible),
                    Some(m) => {
                        st.model = m;
                        self.add(st, e);
                        Ok(Val::Undef)
                    }
                }
            }
            Sp::Check => {
                let n = self.concretize(st, &a[2], 64, "message length")? as u64;
                self.st.checks += 1;
                if matches!(a[0], Val::Undef) {
                    let msg = self.cstr(st, &a[1], n)?;
                    return ub(format!("checked condition is uninitialised: {}", msg));
                }
                let e = self.ex(&a[0], 1);
                let e = self.simp(st, e);
                if self.ar.cval(e) == Some(1) {
                    return Ok(Val::Undef);
                }
                let msg = self.cstr(st, &a[1], n)?;
                if self.ar.undef(e) {
                    return ub(format!("checked condition depends on uninitialised memory: {}", msg));
                }
                if self.ar.cval(e).is_none() {
                    self.st.sym_checks += 1;
                }
                let ne = self.ar.not1(e);
                if let Some(m) = self.may(st, ne)? {
                    self.report(st, "assert", &msg, &m);
                    match self.may(st, e)? {
                        None => return Err(Stop::Infeasible),
                        Some(m) => {
                            st.model = m;
                            self.add(st, e);
                        }
                    }
                }
                Ok(Val::Undef)
            }
            Sp::Cover => {
                let n = self.concretize(st, &a[1], 64, "len")? as u64;
                let s = self.cstr(st, &a[0], n)?;
                *self.covers.entry(s).or_insert(0) += 1;
                Ok(Val::Undef)
            }
            Sp::Expect => {
                let n = self.concretize(st, &a[1], 64, "len")? as u64;
                let s = self.cstr(st, &a[0], n)?;
                self.expects.insert(s);
                Ok(Val::Undef)
            }
            Sp::Observe => {
                if matches!(a[0], Val::Undef) {
                    return ub("observed value is uninitialised");
                }
                if let Val::S(e) = a[0] {
                    if self.ar.undef(e) {
                        return ub("observed value depends on uninitialised memory");
                    }
                }
                st.obs.push(a[0].clone());
                Ok(Val::Undef)
            }
            Sp::AllocLimit => {
                st.alloc_limit = self.concretize(st, &a[0], 64, "allocation limit")? as u64;
                Ok(Val::Undef)
            }
            Sp::LiveHeap => Ok(c(st.live_heap as u128)),
            Sp::Nop => Ok(Val::Undef),
            Sp::Panic => {
                let p = self.m.fns[f as usize].pretty.clone();
                // core::panicking::panic(&str) carries its message
                let mut msg = p.clone();
                if p == "core::panicking::panic" || p.starts_with("core::panicking::panic_nounwind") {
                    if let (Some(Val::C(_)), Some(Val::C(n))) = (a.get(0), a.get(1)) {
                        if *n < 400 {
                            let s = self.cstr(st, &a[0].clone(), *n as u64).unwrap_or_default();
                            msg = format!("{}: {}", p, s);
                        }
                    }
                }
                Err(Stop::Bad("panic".into(), msg))
            }
            Sp::Alloc => self.do_alloc(st, &a[0], &a[1], false),
            Sp::AllocZ => self.do_alloc(st, &a[0], &a[1], true),
            Sp::Dealloc => {
                let p = self.check_layout(st, &a[0], &a[1], &a[2])?;
                self.kill(st, p);
                Ok(Val::Undef)
            }
            Sp::Realloc => {
                let p = self.check_layout(st, &a[0], &a[1], &a[2])?;
                let np = self.do_alloc(st, &a[3], &a[2], false)?;
                if matches!(np, Val::C(0)) {
                    return Ok(np);
                }
                self.realloc_copy(st, p, &np, &a[3])?;
                self.kill(st, p);
                Ok(np)
            }
            Sp::Extern => {
                let name = self.m.fns[f as usize].name.clone();
                self.ext(st, &name, a, tys, rty)
            }
            Sp::None => unreachable!(),
        }
    }
    fn realloc_copy(&mut self, st: &mut State, p: u64, np: &Val, nsize: &Val) -> R<()> {
        let o = self.obj(st, p)?;
        let mut n = o.extent().min(o.size);
        if let Val::C(k) = nsize {
            n = n.min(*k as u64);
        }
        let (d, s) = o.range(0, n);
        let na = match np {
            Val::C(x) => *x as u64,
            _ => unreachable!(),
        };
        self.with_obj_mut(st, na, |_, o| {
            if n > 0 {
                o.put_range(0, &d, &s)
            }
        })
    }
    fn overflow(&mut self, st: &State, op: BinOp, signed: bool, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        let w = t.bits();
        if matches!(a, Val::Undef) || matches!(b, Val::Undef) {
            return Ok(Val::Agg(Rc::new(vec![Val::Undef, Val::Undef])));
        }
        let r = self.binop(st, op, t, a, b)?;
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let rr = self.ex(&r, w);
        let o = match (op, signed) {
            (BinOp::Add, false) => self.ar.bin(Op::Ult, rr, x),
            (BinOp::Sub, false) => self.ar.bin(Op::Ult, x, y),
            (BinOp::Add, true) | (BinOp::Sub, true) => {
                let sx = self.ar.extract(x, w - 1, 1);
                let sy = self.ar.extract(y, w - 1, 1);
                let sr = self.ar.extract(rr, w - 1, 1);
                let same = self.ar.bin(Op::Eq, sx, sy);
                let cond = if op == BinOp::Add { same } else { self.ar.not1(same) };
                let diff = self.ar.bin(Op::Eq, sr, sx);
                let nd = self.ar.not1(diff);
                self.ar.bin(Op::And, cond, nd)
            }
            (BinOp::Mul, sg) => {
                // constants first: exact
                match (self.ar.cval(x), self.ar.cval(y)) {
                    (Some(p), Some(q)) => {
                        let ov = if sg {
                            match sext128(p, w).checked_mul(sext128(q, w)) {
                                Some(v) => sext128((v as u128) & mask(w), w) != v,
                                None => true,
                            }
                        } else {
                            match p.checked_mul(q) {
                                Some(v) => v > mask(w),
                                None => true,
                            }
                        };
                        self.ar.konst(1, ov as u128)
                    }
                    (_, Some(q)) | (Some(q), _) if !sg => {
                        let v = if self.ar.cval(y).is_some() { x } else { y };
                        if q == 0 {
                            self.ar.konst(1, 0)
                        } else {
                            let lim = self.ar.konst(w, mask(w) / q);
                            self.ar.bin(Op::Ult, lim, v)
                        }
                    }
                    _ => {
                        if w > 64 {
                            return eng("symbolic 128-bit multiplication overflow");
                        }
                        let w2 = 2 * w;
                        let (xx, yy) = if sg {
                            (self.ar.sext(x, w2), self.ar.sext(y, w2))
                        } else {
                            (self.ar.zext(x, w2), self.ar.zext(y, w2))
                        };
                        let m = self.ar.bin(Op::Mul, xx, yy);
                        let l = self.ar.extract(m, 0, w);
                        let e = if sg { self.ar.sext(l, w2) } else { self.ar.zext(l, w2) };
                        let q = self.ar.bin(Op::Eq, m, e);
                        self.ar.not1(q)
                    }
                }
            }
            _ => return eng("overflow op"),
        };
        let ov = self.mk(st, o);
        Ok(Val::Agg(Rc::new(vec![r, ov])))
    }
    fn map_lanes(&mut self, t: &Ty, a: &[Val], f: &mut dyn FnMut(&mut Self, &Ty, &[Val]) -> R<Val>) -> R<Val> {
        if let Ty::Vec(n, et) = t {
            let ls: Vec<Vec<Val>> = a.iter().map(|x| Self::lanes(x, *n as usize)).collect();
            let mut r = vec![];
            for i in 0..*n as usize {
                let l: Vec<Val> = ls.iter().map(|x| x[i].clone()).collect();
                r.push(f(self, et, &l)?);
            }
            Ok(Val::Agg(Rc::new(r)))
        } else {
            f(self, t, a)
        }
    }
    fn memcmp(&mut self, st: &mut State, a: &[Val], only_eq: bool) -> R<Val> {
        let n = self.concretize(st, &a[2], 64, "a comparison length")? as u64;
        let x = self.get_bytes(st, &a[0], n)?;
        let y = self.get_bytes(st, &a[1], n)?;
        let mut acc = self.ar.konst(32, 0);
        if x.iter().chain(y.iter()).any(|v| matches!(v, Val::Undef)) {
            return ub("memory comparison reads uninitialised bytes");
        }
        for i in (0..n as usize).rev() {
            let (p, q) = (self.ex(&x[i], 8), self.ex(&y[i], 8));
            let eq = self.ar.bin(Op::Eq, p, q);
            let r = if only_eq {
                self.ar.konst(32, 1)
            } else {
                let lt = self.ar.bin(Op::Ult, p, q);
                let (m1, p1) = (self.ar.konst(32, 0xffff_ffff), self.ar.konst(32, 1));
                self.ar.ite(lt, m1, p1)
            };
            acc = self.ar.ite(eq, acc, r);
        }
        Ok(self.mk(st, acc))
    }
    fn ext(&mut self, st: &mut State, name: &str, a: &[Val], tys: &[Ty], rty: &Ty) -> R<Val> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, a, tys, rty);
        }
        match name {
            "malloc" => {
                let one = c(16);
                self.do_alloc(st, &a[0], &one, false)
            }
            "memcpy" => {
                self.memcpy(st, &a[0], &a[1], &a[2], false)?;
                Ok(a[0].clone())
            }
            "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2], true)?;
                Ok(a[0].clone())
            }
            "memset" => {
                let n = self.concretize(st, &a[2], 64, "a fill length")? as u64;
                let v = match &a[1] {
                    Val::C(x) => Val::C(*x & 0xff),
                    Val::S(e) => {
                        let e = self.ar.extract(*e, 0, 8);
                        self.mk(st, e)
                    }
                    _ => Val::Undef,
                };
                self.put_bytes(st, &a[0], &vec![v; n as usize])?;
                Ok(a[0].clone())
            }
            "memcmp" => self.memcmp(st, a, false),
            "bcmp" => self.memcmp(st, a, true),
            "strlen" => {
                let p = self.concretize(st, &a[0], 64, "strlen")? as u64;
                let o = self.obj(st, p)?;
                let off = self.in_bounds(st, &o, p, 0, "strlen")?;
                let mut n = 0;
                loop {
                    if off + n >= o.size {
                        return ub("strlen past the end");
                    }
                    let b = self.byte_at(st, &o, off + n);
                    match b {
                        Val::C(0) => return Ok(c(n as u128)),
                        Val::C(_) => n += 1,
                        _ => return eng("symbolic strlen"),
                    }
                }
            }
            "abort" => Err(Stop::Bad("panic".into(), "abort".into())),
            "getrandom" => {
                // fixed hash keys: iteration order of hash tables is one arbitrary, fixed order
                let n = self.concretize(st, &a[1], 64, "len")? as u64;
                let v: Vec<Val> = (0..n).map(|i| c(((i * 37 + 11) & 0xff) as u128)).collect();
                self.put_bytes(st, &a[0], &v)?;
                Ok(c(n as u128))
            }
            "__cxa_thread_atexit_impl" => Ok(c(0)),
            "getenv" => Ok(c(0)),
            "rust_eh_personality" => eng("personality"),
            _ => self.vfs_call(st, name, a),
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], tys: &[Ty], rty: &Ty) -> R<Val> {
        let has = |p: &str| n.starts_with(p);
        if has("dbg.") || has("lifetime.") || has("experimental.noalias") || has("prefetch") || has("donothing") || has("fake.use") || has("invariant.") {
            return Ok(Val::Undef);
        }
        if has("memcpy.") {
            self.memcpy(st, &a[0], &a[1], &a[2], false)?;
            return Ok(Val::Undef);
        }
        if has("memmove.") {
            self.memcpy(st, &a[0], &a[1], &a[2], true)?;
            return Ok(Val::Undef);
        }
        if has("memset.") {
            let n = self.concretize(st, &a[2], 64, "a fill length")? as u64;
            if n == 0 {
                return Ok(Val::Undef);
            }
            let ad = self.addr(st, &a[0], n, "fill")?;
            let o = self.obj(st, ad)?;
            let off = self.in_bounds(st, &o, ad, n, "fill")?;
            drop(o);
            let b = match &a[1] {
                Val::C(x) => B::C(*x as u8),
                Val::S(e) => B::S(*e),
                _ => B::U,
            };
            self.with_obj_mut(st, ad, |_, o| o.fill(off, n, b))?;
            return Ok(Val::Undef);
        }
        if has("assume") {
            match &a[0] {
                Val::C(1) => {}
                Val::C(_) => return ub("llvm.assume(false)"),
                Val::S(e) => {
                    let ne = self.ar.not1(*e);
                    if let Some(m) = self.may(st, ne)? {
                        st.model = m;
                        return ub("assume() of a condition that can be false");
                    }
                }
                _ => {}
            }
            return Ok(Val::Undef);
        }
        if has("expect.") || has("threadlocal.address") || has("launder") || has("strip") || has("ssa.copy") || has("arithmetic.fence") {
            return Ok(a[0].clone());
        }
        if has("is.constant") {
            return Ok(c(0));
        }
        if has("trap") || has("ubsantrap") || has("debugtrap") {
            return Err(Stop::Bad("panic".into(), "llvm.trap".into()));
        }
        let ovf = |p: &str| -> Option<(BinOp, bool)> {
            let signed = p.starts_with('s');
            let o = match &p[1..4] {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                _ => return None,
            };
            Some((o, signed))
        };
        if n.contains(".with.overflow.") {
            let (o, s) = ovf(n).unwrap();
            return self.overflow(st, o, s, &tys[0], &a[0], &a[1]);
        }
        let st0: &State = st;
        if has("uadd.sat") || has("usub.sat") || has("sadd.sat") || has("ssub.sat") {
            let (o, s) = ovf(n).unwrap();
            return self.map_lanes(rty, a, &mut |me, t, a| {
                let w = t.bits();
                let r = me.overflow(st0, o, s, t, &a[0], &a[1])?;
                let (v, ov) = match r {
                    Val::Agg(x) => (x[0].clone(), x[1].clone()),
                    _ => return Ok(Val::Undef),
                };
                if matches!(v, Val::Undef) {
                    return Ok(Val::Undef);
                }
                let ve = me.ex(&v, w);
                let oe = me.ex(&ov, 1);
                let satv = if !s {
                    me.ar.konst(w, if o == BinOp::Add { mask(w) } else { 0 })
                } else {
                    let x = me.ex(&a[0], w);
                    let sg = me.ar.extract(x, w - 1, 1);
                    let (mx, mn) = (me.ar.konst(w, mask(w) >> 1), me.ar.konst(w, (mask(w) >> 1) + 1));
                    me.ar.ite(sg, mn, mx)
                };
                let r = me.ar.ite(oe, satv, ve);
                Ok(me.mk(st0, r))
            });
        }
        for (p, op, swap) in [("umin.", Op::Ult, false), ("umax.", Op::Ult, true), ("smin.", Op::Slt, false), ("smax.", Op::Slt, true)] {
            if has(p) {
                return self.map_lanes(rty, a, &mut |me, t, a| {
                    if matches!(a[0], Val::Undef) || matches!(a[1], Val::Undef) {
                        return Ok(Val::Undef);
                    }
                    let w = t.bits();
                    let (x, y) = (me.ex(&a[0], w), me.ex(&a[1], w));
                    let k = me.ar.bin(op, x, y);
                    let r = if swap { me.ar.ite(k, y, x) } else { me.ar.ite(k, x, y) };
                    Ok(me.mk(st0, r))
                });
            }
        }
        if has("ucmp.") || has("scmp.") {
            if matches!(a[0], Val::Undef) || matches!(a[1], Val::Undef) {
                return Ok(Val::Undef);
            }
            let (w, rw) = (tys[0].bits(), rty.bits());
            let op = if has("ucmp.") { Op::Ult } else { Op::Slt };
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let lt = self.ar.bin(op, x, y);
            let gt = self.ar.bin(op, y, x);
            let (m1, z, p1) = (self.ar.konst(rw, mask(rw)), self.ar.konst(rw, 0), self.ar.konst(rw, 1));
            let g = self.ar.ite(gt, p1, z);
            let r = self.ar.ite(lt, m1, g);
            return Ok(self.mk(st, r));
        }
        if has("abs.") {
            return self.map_lanes(rty, &a[..1], &mut |me, t, a| {
                let w = t.bits();
                let x = me.ex(&a[0], w);
                let sg = me.ar.extract(x, w - 1, 1);
                let z = me.ar.konst(w, 0);
                let ng = me.ar.bin(Op::Sub, z, x);
                let r = me.ar.ite(sg, ng, x);
                Ok(me.mk(st0, r))
            });
        }
        if has("bswap.") {
            return self.map_lanes(rty, a, &mut |me, t, a| {
                if matches!(a[0], Val::Undef) {
                    return Ok(Val::Undef);
                }
                let w = t.bits();
                let x = me.ex(&a[0], w);
                let mut acc = me.ar.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = me.ar.extract(x, i * 8, 8);
                    acc = me.ar.concat(acc, b);
                }
                Ok(me.mk(st0, acc))
            });
        }
        if has("ctlz.") || has("cttz.") || has("ctpop.") || has("bitreverse.") {
            let kind = &n[..4];
            return self.map_lanes(rty, &a[..1], &mut |me, t, a| {
                let w = t.bits();
                match &a[0] {
                    Val::Undef => Ok(Val::Undef),
                    Val::C(x) => Ok(c(match kind {
                        "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                        "cttz" => x.trailing_zeros().min(w) as u128,
                        "ctpo" => x.count_ones() as u128,
                        _ => x.reverse_bits() >> (128 - w),
                    })),
                    v => {
                        let x = me.ex(v, w);
                        let mut acc = me.ar.konst(w, if kind == "ctpo" { 0 } else { w as u128 });
                        match kind {
                            "ctlz" => {
                                for i in 0..w {
                                    let b = me.ar.extract(x, i, 1);
                                    let k = me.ar.konst(w, (w - 1 - i) as u128);
                                    acc = me.ar.ite(b, k, acc);
                                }
                            }
                            "cttz" => {
                                for i in (0..w).rev() {
                                    let b = me.ar.extract(x, i, 1);
                                    let k = me.ar.konst(w, i as u128);
                                    acc = me.ar.ite(b, k, acc);
                                }
                            }
                            "ctpo" => {
                                for i in 0..w {
                                    let b = me.ar.extract(x, i, 1);
                                    let b = me.ar.zext(b, w);
                                    acc = me.ar.bin(Op::Add, acc, b);
                                }
                            }
                            _ => {
                                acc = me.ar.extract(x, 0, 1);
                                for i in 1..w {
                                    let b = me.ar.extract(x, i, 1);
                                    acc = me.ar.concat(acc, b);
                                }
                            }
                        }
                        Ok(me.mk(st0, acc))
                    }
                }
            });
        }
        if has("fshl.") || has("fshr.") {
            let left = has("fshl.");
            return self.map_lanes(rty, a, &mut |me, t, a| {
                if a.iter().any(|x| matches!(x, Val::Undef)) {
                    return Ok(Val::Undef);
                }
                let w = t.bits();
                let (x, y, z) = (me.ex(&a[0], w), me.ex(&a[1], w), me.ex(&a[2], w));
                let wk = me.ar.konst(w, w as u128);
                let s = me.ar.bin(Op::URem, z, wk);
                let inv = me.ar.bin(Op::Sub, wk, s);
                // shifting by w yields 0 in our semantics, which is what is wanted here
                let r = if left {
                    let h = me.ar.bin(Op::Shl, x, s);
                    let l = me.ar.bin(Op::LShr, y, inv);
                    me.ar.bin(Op::Or, h, l)
                } else {
                    let h = me.ar.bin(Op::Shl, x, inv);
                    let l = me.ar.bin(Op::LShr, y, s);
                    me.ar.bin(Op::Or, h, l)
                };
                Ok(me.mk(st0, r))
            });
        }
        if has("x86.sse2.pmovmskb") {
            let l = Self::lanes(&a[0], 16);
            let mut acc: Option<Ex> = None;
            for v in &l {
                let e = self.ex(v, 8);
                let b = self.ar.extract(e, 7, 1);
                acc = Some(match acc {
                    None => b,
                    Some(x) => self.ar.concat(b, x),
                });
            }
            let r = self.ar.zext(acc.unwrap(), 32);
            return Ok(self.mk(st, r));
        }
        if has("x86.sse2.pause") {
            return Ok(Val::Undef);
        }
        if has("vector.reduce.") {
            let et = tys[0].field_ty(0);
            let l = Self::lanes(&a[0], tys[0].nfields());
            let op = match n.split('.').nth(2).unwrap_or("") {
                "add" => BinOp::Add,
                "or" => BinOp::Or,
                "and" => BinOp::And,
                "xor" => BinOp::Xor,
                "mul" => BinOp::Mul,
                o => return eng(format!("vector.reduce.{}", o)),
            };
            let mut acc = l[0].clone();
            for v in &l[1..] {
                acc = self.binop(st, op, &et, &acc, v)?;
            }
            return Ok(acc);
        }
        if has("fptoui.sat.") || has("fptosi.sat.") {
            return self.fconv(st, if has("fptoui.") { 3 } else { 4 }, &tys[0], rty, &a[0]);
        }
        if has("copysign.") {
            let w = rty.bits();
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let (m, s) = (self.ar.extract(x, 0, w - 1), self.ar.extract(y, w - 1, 1));
            let e = self.ar.concat(s, m);
            return Ok(self.mk(st, e));
        }
        if has("is.fpclass.") {
            let w = tys[0].bits();
            if let (Val::C(m), false) = (&a[1], matches!(a[0], Val::Undef)) {
                // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
                let m = *m;
                let x = self.ex(&a[0], w);
                let (mag, sg) = (self.ar.extract(x, 0, w - 1), self.ar.extract(x, w - 1, 1));
                let npos = self.ar.not1(sg);
                let kk = |me: &mut Self, v: u128| me.ar.konst(w - 1, v);
                let (z, inf, qn, mn) = (kk(self, 0), kk(self, finf(w)), kk(self, finf(w) | fquiet(w)), kk(self, fquiet(w) << 1));
                let is0 = self.ar.bin(Op::Eq, mag, z);
                let isinf = self.ar.bin(Op::Eq, mag, inf);
                let nan = self.ar.bin(Op::Ult, inf, mag);
                let q = self.ar.bin(Op::Ule, qn, mag);
                let nq = self.ar.not1(q);
                let sn = self.ar.bin(Op::And, nan, nq);
                let lt = self.ar.bin(Op::Ult, mag, mn);
                let n0 = self.ar.not1(is0);
                let sub = self.ar.bin(Op::And, lt, n0);
                let ge = self.ar.not1(lt);
                let li = self.ar.bin(Op::Ult, mag, inf);
                let nor = self.ar.bin(Op::And, ge, li);
                let cl = [(sn, None), (q, None), (isinf, Some(sg)), (nor, Some(sg)), (sub, Some(sg)), (is0, Some(sg)), (is0, Some(npos)), (sub, Some(npos)), (nor, Some(npos)), (isinf, Some(npos))];
                let mut e = self.ar.konst(1, 0);
                for (i, (c, s)) in cl.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        let t = match s {
                            Some(s) => self.ar.bin(Op::And, *c, *s),
                            None => *c,
                        };
                        e = self.ar.bin(Op::Or, e, t);
                    }
                }
                return Ok(self.mk(st, e));
            }
        }
        if has("fabs.") {
            let w = rty.bits();
            return self.binop(st, BinOp::And, &Ty::Int(w), &a[0], &c(mask(w) >> 1));
        }
        eng(format!("intrinsic llvm.{}", n))
    }
}
