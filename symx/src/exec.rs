//! Symbolic executor over the parsed module.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const FN_BASE: u64 = 0x7000_0000;
pub const EXT_BASE: u64 = 0x7800_0000;
const BIG_READ: u64 = 1 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK {
    Normal,
    PanicFmt,
    PanicOther,
    Abort,
    FmtFloat(u8),
}

pub struct Prog {
    pub m: Module,
    pub fk: Vec<FK>,
    pub hashfn: Vec<bool>,
    pub xn: Vec<Rc<str>>,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub mem0: Mem,
    pub errno: u64,
    pub zero: u64,
}

fn res_opnd(o: &mut Opnd, g: &HashMap<Rc<str>, u64>) {
    match o {
        Opnd::G(n, off) => {
            let a = *g.get(n).unwrap_or_else(|| panic!("unresolved symbol {}", n));
            *o = Opnd::C(a.wrapping_add(*off as u64));
        }
        Opnd::Ex(k, p, w) => {
            let (mut a, mut b) = (p.0.clone(), p.1.clone());
            res_opnd(&mut a, g);
            res_opnd(&mut b, g);
            if let (Opnd::C(x), Opnd::C(y)) = (&a, &b) {
                let r = match k {
                    0 => x.wrapping_add(*y),
                    1 => x.wrapping_sub(*y),
                    _ => x ^ y,
                };
                *o = Opnd::C(r & mask(*w) as u64);
            } else {
                panic!("constant expression");
            }
        }
        Opnd::Agg(v) => {
            let mut w: Vec<Opnd> = (**v).clone();
            for x in w.iter_mut() {
                res_opnd(x, g);
            }
            *o = Opnd::Agg(Rc::new(w));
        }
        _ => {}
    }
}

pub fn const_bytes(c: &Cst, ty: &Ty, out: &mut [u8], g: &HashMap<Rc<str>, u64>) {
    match c {
        Cst::Zero => {}
        Cst::Int(v) => {
            let n = ty.size() as usize;
            out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        Cst::Bytes(b) => out[..b.len()].copy_from_slice(b),
        Cst::Global(n, off) => {
            let a = g.get(n).copied().unwrap_or_else(|| panic!("unresolved symbol {}", n));
            out[..8].copy_from_slice(&a.wrapping_add(*off as u64).to_le_bytes());
        }
        Cst::Ex(..) => panic!("constant expression in initializer"),
        Cst::Agg(v) => {
            for (i, (t, x)) in v.iter().enumerate() {
                let (o, _) = ty.field_off(i);
                const_bytes(x, t, &mut out[o as usize..], g);
            }
        }
    }
}

impl Prog {
    pub fn load(mut m: Module) -> Prog {
        let mut mem = Mem::default();
        let mut g: HashMap<Rc<str>, u64> = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            g.insert(f.name.clone(), (FN_BASE + i as u64) << 32);
        }
        let mut ids = vec![];
        for gl in &m.globals {
            let sz = gl.ty.size().max(if gl.init.is_none() { 64 } else { 0 });
            let id = mem.alloc(vec![0; sz as usize], false);
            ids.push(id);
            g.insert(gl.name.clone(), addr(id, 0));
        }
        for (a, t) in m.aliases.clone() {
            if let Some(x) = g.get(&t) {
                let x = *x;
                g.insert(a, x);
            }
        }
        for (i, n) in m.externs.iter().enumerate() {
            if !g.contains_key(n) {
                g.insert(n.clone(), (EXT_BASE + i as u64) << 32);
            }
        }
        // calls to names never declared (asm)
        let mut xn: Vec<Rc<str>> = m.externs.clone();
        let mut xi: HashMap<Rc<str>, u32> =
            xn.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
        for (gl, id) in m.globals.iter().zip(&ids) {
            if let Some(c) = &gl.init {
                let mut b = vec![0u8; gl.ty.size() as usize];
                const_bytes(c, &gl.ty, &mut b, &g);
                let o = mem.get_mut(*id).unwrap();
                o.data = b;
                o.ro = gl.constant;
            }
        }
        for f in m.funcs.iter_mut() {
            for b in f.blocks.iter_mut() {
                for (_, v) in b.phis.iter_mut() {
                    for (_, o) in v.iter_mut() {
                        res_opnd(o, &g);
                    }
                }
                for i in b.ins.iter_mut() {
                    match i {
                        Ins::Bin(_, _, _, a, b)
                        | Ins::FBin(_, _, _, a, b)
                        | Ins::Icmp(_, _, _, a, b)
                        | Ins::Fcmp(_, _, _, a, b)
                        | Ins::Store(_, a, b)
                        | Ins::AtomicRmw(_, _, _, a, b)
                        | Ins::Insert(_, a, b, _, _) => {
                            res_opnd(a, &g);
                            res_opnd(b, &g)
                        }
                        Ins::FNeg(_, _, a)
                        | Ins::Cast(_, _, _, _, a)
                        | Ins::Load(_, _, a)
                        | Ins::CondBr(a, _, _)
                        | Ins::Switch(_, a, _, _)
                        | Ins::Ret(Some(a))
                        | Ins::Extract(_, a, _)
                        | Ins::Alloca(_, _, Some((_, a)))
                        | Ins::Mov(_, a) => res_opnd(a, &g),
                        Ins::Gep(_, a, _, t) => {
                            res_opnd(a, &g);
                            for x in t.iter_mut() {
                                res_opnd(&mut x.0, &g)
                            }
                        }
                        Ins::Select(_, _, a, b, c) | Ins::CmpXchg(_, _, a, b, c) => {
                            res_opnd(a, &g);
                            res_opnd(b, &g);
                            res_opnd(c, &g)
                        }
                        Ins::Call(_, c, args, _) => {
                            for (_, a) in args.iter_mut() {
                                res_opnd(a, &g)
                            }
                            match c {
                                Callee::Name(n) => {
                                    let t = g.get(n).copied();
                                    *c = match t {
                                        Some(a) if (a >> 32) >= EXT_BASE => {
                                            Callee::Ext(((a >> 32) - EXT_BASE) as u32)
                                        }
                                        Some(a) if (a >> 32) >= FN_BASE => {
                                            Callee::Fn(((a >> 32) - FN_BASE) as u32)
                                        }
                                        _ => {
                                            let k = *xi.entry(n.clone()).or_insert_with(|| {
                                                xn.push(n.clone());
                                                xn.len() as u32 - 1
                                            });
                                            Callee::Ext(k)
                                        }
                                    }
                                }
                                Callee::Ptr(o) => res_opnd(o, &g),
                                _ => {}
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        let fk = m
            .funcs
            .iter()
            .map(|f| {
                let n = &*f.name;
                if n.contains("9panicking9panic_fmt") {
                    FK::PanicFmt
                } else if n.contains("rust_begin_unwind")
                    || n.contains("9panicking18panic_nounwind")
                    || n.contains("9panicking19panic_cannot_unwind")
                    || n.contains("18handle_alloc_error")
                    || n.contains("9panicking11begin_panic")
                    || n.contains("rust_panic_with_hook")
                {
                    FK::PanicOther
                } else if n.contains("7process5abort") || n.ends_with("14abort_internal") {
                    FK::Abort
                } else if n.contains("29float_to_decimal_common_exact") || n.contains("32float_to_decimal_common_shortest") {
                    FK::FmtFloat(if n.contains("exactd") || n.contains("shortestd") { 8 } else { 4 })
                } else {
                    FK::Normal
                }
            })
            .collect();
        let e = mem.alloc(vec![0; 8], false);
        let z = mem.alloc(vec![0; 64], false);
        let hashfn = m.funcs.iter().map(|f| f.name.contains("11RandomState") && f.name.contains("8hash_one")).collect();
        Prog { m, fk, hashfn, xn, gaddr: g, mem0: mem, errno: addr(e, 0), zero: addr(z, 0) }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    blk: u32,
    ip: u32,
    base: u32,
    abase: u32,
    dst: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Pruned,
    Assert(String),
    Panic(String),
    Ub(String),
    Limit(String),
    Unsup(String),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub model: Model,
    pub vars: Vec<u32>,
    pub fixed: Vec<bool>,
    pub outs: Vec<Vec<SymB>>,
    pub tag: String,
    pub reach: Vec<u32>,
    pub steps: u64,
    pub panic_ok: bool,
    pub rng: u64,
    pub clock: u64,
    pub tls: Vec<u64>,
    pub fs: crate::fs::Fs,
    pub hash: HashFork,
    pub ret: Option<Val>,
}
/// Keys of the selected map whose order is varied (every permutation).
const HASH_KEYS: usize = 3;
/// Iteration order of hash maps as an environment choice: while `on`, one map (RandomState) per path is selected and
/// its first keys fall into the first buckets in every order; the other maps keep the order of the concrete seed.
#[derive(Clone, Default)]
pub struct HashFork {
    on: bool,
    sel: Option<u64>,
    seen: Rc<Vec<u64>>,
    cur: u64,
    memo: Rc<std::collections::BTreeMap<u64, u64>>,
}

pub struct Violation {
    pub kind: &'static str,
    pub msg: String,
    pub tag: String,
    pub trace: String,
    pub values: Vec<(u16, u128)>,
    pub count: u64,
}

#[derive(Default)]
pub struct Totals {
    pub paths: u64,
    pub ok: u64,
    pub pruned: u64,
    pub viol: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub float_text: u64,
    pub max_cons: u64,
    pub panics_ok: u64,
    pub nsym_paths: u64,
    pub maxvars: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_viol: usize,
    pub samples: usize,
    pub deadline: Option<std::time::Instant>,
    pub seed: u64,
    pub ub_prune: bool,
    pub dump_all: bool,
}

pub struct Sample {
    pub values: Vec<(u16, u128)>,
    pub outs: Vec<Vec<u8>>,
    pub tag: String,
    pub end: String,
    pub key: u64,
}

pub struct Exec {
    pub p: Rc<Prog>,
    pub x: Ctx,
    pub s: Solver,
    pub cfg: Cfg,
    pub work: Vec<State>,
    pub t: Totals,
    pub viols: Vec<Violation>,
    pub vsig: HashMap<(String, String, String), usize>,
    pub reach: HashMap<u32, u64>,
    pub incomplete: HashMap<String, u64>,
    pub samples: Vec<Sample>,
    pub called: Vec<bool>,
    pub varmap: HashMap<(u32, u16), u32>,
    pub timed_out: bool,
    memo: FxMap<E, u128>,
}

enum Flow {
    Next,
    End(End),
    Retry, // constraint added; re-execute the instruction
}
type R<T> = Result<T, End>;

fn ub<T>(s: impl Into<String>) -> R<T> {
    Err(End::Ub(s.into()))
}

impl Exec {
    pub fn new(p: Rc<Prog>, cfg: Cfg, rlimit: u32) -> Exec {
        let n = p.m.funcs.len();
        Exec {
            p,
            x: Ctx::new(),
            s: Solver::new(rlimit),
            cfg,
            work: vec![],
            t: Totals::default(),
            viols: vec![],
            vsig: HashMap::new(),
            reach: HashMap::new(),
            incomplete: HashMap::new(),
            samples: vec![],
            called: vec![false; n],
            varmap: HashMap::new(),
            timed_out: false,
            memo: FxMap::default(),
        }
    }
    pub fn init(&mut self, entry: &str) -> State {
        let f = *self.p.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let mut st = State {
            hash: Default::default(),
            frames: vec![],
            regs: vec![],
            allocas: vec![],
            mem: self.p.mem0.clone(),
            cons: vec![],
            model: Model::default(),
            vars: vec![],
            fixed: vec![],
            outs: vec![],
            tag: String::new(),
            reach: vec![],
            steps: 0,
            panic_ok: false,
            rng: self.cfg.seed,
            clock: 1_700_000_000_000_000_000,
            tls: vec![],
            fs: Default::default(),
            ret: None,
        };
        self.push_frame(&mut st, f, vec![], u32::MAX);
        st
    }
    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: u32) {
        let p = self.p.clone();
        let fd = &p.m.funcs[f as usize];
        self.called[f as usize] = true;
        if st.hash.on && p.hashfn[f as usize] {
            if let Some(Val::C(a)) = args.first() {
                if let Ok(Val::C(k0)) = self.load_scalar(st, &Val::C(*a), 8, 64) {
                    st.hash.cur = k0;
                    if st.hash.sel.is_none() && !st.hash.seen.contains(&k0) {
                        Rc::make_mut(&mut st.hash.seen).push(k0);
                        let mut o = st.clone();
                        o.hash.sel = Some(k0);
                        self.t.forks += 1;
                        self.push_frame(&mut o, f, args.clone(), dst);
                        self.work.push(o);
                    }
                }
            }
        }
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + fd.nregs as usize, Val::C(0));
        for ((r, _), v) in fd.params.iter().zip(args) {
            st.regs[base as usize + *r as usize] = v;
        }
        st.frames.push(Frame { f, blk: 0, ip: 0, base, abase: st.allocas.len() as u32, dst });
    }

    fn hash_ret(&mut self, st: &mut State, fr: &Frame, v: Val) {
        for id in st.allocas.drain(fr.abase as usize..) {
            st.mem.release(id);
        }
        st.regs.truncate(fr.base as usize);
        if let Some(up) = st.frames.last() {
            if fr.dst != u32::MAX {
                let b = up.base;
                Self::set(st, b, fr.dst, v);
            }
        }
    }
    // ---- value helpers
    pub fn ex(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(k) => self.x.cst(w, *k as u128),
            Val::W(k) => self.x.cst(w, **k),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn mk(&self, e: E) -> Val {
        match self.x.as_const(e) {
            Some(k) if self.x.w(e) <= 64 => Val::C(k as u64),
            Some(k) => Val::W(Rc::new(k)),
            None => Val::S(e),
        }
    }
    fn kv(&self, w: u16, k: u128) -> Val {
        if w <= 64 {
            Val::C(k as u64)
        } else {
            Val::W(Rc::new(k))
        }
    }
    fn conc(v: &Val) -> Option<u128> {
        match v {
            Val::C(k) => Some(*k as u128),
            Val::W(k) => Some(**k),
            _ => None,
        }
    }
    fn opnd(st: &State, base: u32, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.regs[(base + r) as usize].clone(),
            Opnd::C(k) => Val::C(*k),
            Opnd::W(k) => Val::W(Rc::new(*k)),
            Opnd::Agg(v) => Val::A(Rc::new(v.iter().map(|o| Self::opnd(st, base, o)).collect())),
            Opnd::G(..) | Opnd::Ex(..) => unreachable!(),
        }
    }
    pub fn ev(&mut self, st: &State, e: E) -> u128 {
        self.memo.clear();
        self.x.eval(e, &st.model, &mut self.memo)
    }
    fn all_fixed(&mut self, st: &State, e: E) -> bool {
        let vs = self.x.varset(e);
        vs.iter().all(|v| st.fixed.get(*v as usize).copied().unwrap_or(false))
    }
    fn add_con(&mut self, st: &mut State, c: E) {
        if c == Ctx::TRUE {
            return;
        }
        let n = self.x.nodes[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            return;
        }
        if n.op == Op::Eq && self.x.as_const(n.b).is_some() {
            let v = self.x.nodes[n.a as usize];
            if v.op == Op::Var {
                let i = v.k as usize;
                if st.fixed.len() <= i {
                    st.fixed.resize(i + 1, false);
                }
                st.fixed[i] = true;
            }
        }
        if n.op == Op::Var {
            let i = n.k as usize;
            if st.fixed.len() <= i {
                st.fixed.resize(i + 1, false);
            }
            st.fixed[i] = true;
        }
        if !st.cons.contains(&c) {
            st.cons.push(c);
        }
        if st.cons.len() as u64 > self.t.max_cons {
            self.t.max_cons = st.cons.len() as u64;
        }
    }
    fn apply(m: &mut Model, d: &Option<Rc<Vec<(u32, u128)>>>) {
        if let Some(d) = d {
            for (i, v) in d.iter() {
                m.set(*i, *v);
            }
        }
    }
    fn inc(&mut self, why: &str) {
        *self.incomplete.entry(why.to_string()).or_insert(0) += 1;
    }
    /// Decide a 1-bit expression in this state. Returns the branch taken by the current state; pushes the other
    /// side via `other` if feasible.
    fn branch(&mut self, st: &mut State, c: E, other: impl FnOnce(&mut State, bool)) -> bool {
        if let Some(k) = self.x.as_const(c) {
            return k != 0;
        }
        let v = self.ev(st, c) != 0;
        if self.all_fixed(st, c) {
            return v;
        }
        let nc = self.x.not1(c);
        let (mine, oth) = if v { (c, nc) } else { (nc, c) };
        let (r, m) = self.s.check(&mut self.x, &st.cons, oth);
        match r {
            Sat::Sat => {
                self.t.forks += 1;
                let mut o = st.clone();
                self.add_con(&mut o, oth);
                Self::apply(&mut o.model, &m);
                other(&mut o, !v);
                self.work.push(o);
                self.add_con(st, mine);
            }
            Sat::Unsat => {}
            Sat::Unknown => {
                self.inc("solver unknown on branch");
                self.add_con(st, mine);
            }
        }
        v
    }
    /// Make expression concrete in this state (other values are explored by re-executing the instruction).
    fn concretize(&mut self, st: &mut State, e: E) -> u128 {
        if let Some(k) = self.x.as_const(e) {
            return k;
        }
        let v = self.ev(st, e);
        if self.all_fixed(st, e) {
            return v;
        }
        let w = self.x.w(e);
        let k = self.x.cst(w, v);
        let c = self.x.bin(Op::Eq, e, k);
        self.branch(st, c, |o, _| o.frames.last_mut().unwrap().ip -= 1);
        v
    }
    pub fn cval(&mut self, st: &mut State, v: &Val) -> u128 {
        match v {
            Val::C(k) => *k as u128,
            Val::W(k) => **k,
            Val::S(e) => self.concretize(st, *e),
            Val::A(_) => panic!("cval agg"),
        }
    }

    // ---- memory with possibly symbolic address
    fn addr_range(&mut self, st: &mut State, e: E, n: u64) -> R<(u32, u64)> {
        // returns (object id, size) with the state constrained to stay inside that object
        let a0 = self.ev(st, e) as u64;
        let id = (a0 >> 32) as u32;
        let size = match st.mem.get(id) {
            Some(o) => o.data.len() as u64,
            None => return ub(format!("access to invalid address {:#x}", a0)),
        };
        if (a0 & 0xffff_ffff) + n > size {
            return ub("access out of bounds");
        }
        let b = self.x.cst(64, addr(id, 0) as u128);
        let off = self.x.bin(Op::Sub, e, b);
        let lim = self.x.cst(64, (size - n) as u128);
        let c = self.x.bin(Op::Ule, off, lim);
        let v = self.branch(st, c, |o, _| o.frames.last_mut().unwrap().ip -= 1);
        debug_assert!(v);
        Ok((id, size))
    }
    fn tz(&self, e: E) -> u32 {
        let n = &self.x.nodes[e as usize];
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    64
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Add | Op::Sub | Op::Or => self.tz(n.a).min(self.tz(n.b)),
            Op::Mul => self.tz(n.a) + self.tz(n.b),
            Op::Shl => match self.x.as_const(n.b) {
                Some(k) => self.tz(n.a) + k as u32,
                None => 0,
            },
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Concat => match self.x.as_const(n.b) {
                Some(0) => self.x.w(n.b) as u32 + self.tz(n.a),
                _ => self.tz(n.b),
            },
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    fn umax(&self, e: E, d: u32) -> u128 {
        let n = &self.x.nodes[e as usize];
        let m = mask(n.w);
        if d == 0 {
            return m;
        }
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umax(n.a, d - 1),
            Op::Add => {
                let s = self.umax(n.a, d - 1).saturating_add(self.umax(n.b, d - 1));
                if s > m {
                    m
                } else {
                    s
                }
            }
            Op::Mul => {
                let s = self.umax(n.a, d - 1).checked_mul(self.umax(n.b, d - 1));
                match s {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Shl => match self.x.as_const(n.b) {
                Some(k) if k < 64 => {
                    let a = self.umax(n.a, d - 1);
                    match a.checked_mul(1u128 << k) {
                        Some(s) if s <= m => s,
                        _ => m,
                    }
                }
                _ => m,
            },
            Op::And => self.umax(n.a, d - 1).min(self.umax(n.b, d - 1)),
            Op::URem => match self.x.as_const(n.b) {
                Some(k) if k > 0 => k - 1,
                _ => m,
            },
            Op::LShr => match self.x.as_const(n.b) {
                Some(k) if k < 128 => self.umax(n.a, d - 1) >> k,
                _ => m,
            },
            Op::UDiv => match self.x.as_const(n.b) {
                Some(k) if k > 0 => self.umax(n.a, d - 1) / k,
                _ => m,
            },
            Op::Ite => self.umax(n.b, d - 1).max(self.umax(n.c, d - 1)),
            Op::Extract if n.k == 0 => self.umax(n.a, d - 1).min(m),
            _ => m,
        }
    }
    pub fn load_scalar(&mut self, st: &mut State, p: &Val, n: u64, bits: u16) -> R<Val> {
        match p {
            Val::C(a) => match st.mem.load(&mut self.x, *a, n, bits) {
                Some(v) => Ok(v),
                None => ub(format!("load of {} bytes at {:#x}", n, a)),
            },
            Val::S(e) => {
                let (id, size) = self.addr_range(st, *e, n)?;
                let b = self.x.cst(64, addr(id, 0) as u128);
                let off = self.x.bin(Op::Sub, *e, b);
                let step = 1u64 << self.tz(off).min(6);
                let hi = (size - n).min(self.umax(off, 12) as u64);
                if hi / step > 1100 {
                    let a = self.concretize(st, *e) as u64;
                    return self.load_scalar(st, &Val::C(a), n, bits);
                }
                let o = st.mem.get_rc(id).unwrap();
                let mut acc: Option<E> = None;
                let mut k = (hi / step) * step;
                loop {
                    let v = load_obj(&o, &mut self.x, k as usize, n as usize, bits);
                    let v = self.ex(&v, bits);
                    acc = Some(match acc {
                        None => v,
                        Some(r) => {
                            let kk = self.x.cst(64, k as u128);
                            let c = self.x.bin(Op::Eq, off, kk);
                            self.x.ite(c, v, r)
                        }
                    });
                    if k < step {
                        break;
                    }
                    k -= step;
                }
                Ok(self.mk(acc.unwrap()))
            }
            _ => ub("bad pointer"),
        }
    }
    fn load_ty(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(f, _) => {
                let a = self.cval(st, p) as u64;
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i);
                    v.push(self.load_ty(st, &Val::C(a + o), &t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(k, _) => {
                let a = self.cval(st, p) as u64;
                let mut v = vec![];
                for i in 0..*k {
                    let (o, t) = ty.field_off(i as usize);
                    v.push(self.load_ty(st, &Val::C(a + o), &t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(..) | Ty::Other | Ty::Void => Err(End::Unsup("load of vector".into())),
            _ => self.load_scalar(st, p, ty.store_size(), ty.bits()),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Struct(..), Val::A(vs)) | (Ty::Arr(..), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = ty.field_off(i);
                    self.store_ty(st, a + o, &t, x)?;
                }
                Ok(())
            }
            (Ty::Vec(..), _) => Err(End::Unsup("store of vector".into())),
            _ => {
                let n = ty.store_size();
                let v2;
                let v = match v {
                    Val::S(e) if self.x.w(*e) as u64 != n * 8 => {
                        v2 = Val::S(self.x.zext(*e, n as u16 * 8));
                        &v2
                    }
                    v => v,
                };
                {
                    let sz = st.mem.get((a >> 32) as u32).map_or(0, |o| o.data.len());
                    st.mem.store(&self.x, a, n, v).map_err(|e| End::Ub(format!("{} ({} bytes at offset {} of an object of {})", e, n, a & 0xffff_ffff, sz)))
                }
            }
        }
    }
    pub fn bytes(&mut self, st: &State, a: u64, n: u64) -> Option<Vec<SymB>> {
        if n == 0 {
            return Some(vec![]);
        }
        let (id, off) = st.mem.find(a, n)?;
        let o = st.mem.get(id).unwrap();
        let mut v = Vec::with_capacity(n as usize);
        for i in off..off + n as usize {
            let s = match &o.sym {
                Some(s) if s[i].e != 0 => s[i],
                _ => SymB { e: 0, idx: o.data[i] },
            };
            v.push(s);
        }
        Some(v)
    }
    pub fn bexpr(&mut self, b: SymB) -> E {
        if b.e == 0 {
            self.x.cst(8, b.idx as u128)
        } else {
            self.x.extract(b.e, b.idx as u16 * 8, 8)
        }
    }
    pub fn cstr_conc(&mut self, st: &mut State, a: u64, n: u64) -> Option<Vec<u8>> {
        let b = self.bytes(st, a, n)?;
        let mut v = vec![];
        for x in b {
            v.push(if x.e == 0 {
                x.idx
            } else {
                let e = self.bexpr(x);
                self.ev(st, e) as u8
            });
        }
        Some(v)
    }

    // ---- running
    pub fn run(&mut self, mut st: State) {
        let p = self.p.clone();
        let end = loop {
            if st.steps > self.cfg.max_steps {
                break End::Limit("step limit".into());
            }
            if st.steps & 0xffff == 0 {
                if let Some(d) = self.cfg.deadline {
                    if std::time::Instant::now() > d {
                        self.timed_out = true;
                        self.t.paths += 1;
                        self.t.steps += st.steps;
                        return;
                    }
                }
            }
            match self.step(&p, &mut st) {
                Flow::Next => {}
                Flow::Retry => {}
                Flow::End(e) => break e,
            }
        };
        self.finish(st, end);
    }
    /// Run one state until it forks (then it is put back on the queue) or ends.
    pub fn run_until_fork(&mut self, mut st: State) {
        let p = self.p.clone();
        let n0 = self.work.len();
        let end = loop {
            if st.steps > self.cfg.max_steps {
                break End::Limit("step limit".into());
            }
            match self.step(&p, &mut st) {
                Flow::Next | Flow::Retry => {}
                Flow::End(e) => break e,
            }
            if self.work.len() > n0 {
                self.work.push(st);
                return;
            }
        };
        self.finish(st, end);
    }
    pub fn trace(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(14) {
            v.push(demangle(&self.p.m.funcs[f.f as usize].name));
        }
        v.join(" < ")
    }
    fn values(&self, st: &State) -> Vec<(u16, u128)> {
        st.vars.iter().map(|i| (self.x.widths[*i as usize], st.model.get(*i) & mask(self.x.widths[*i as usize]))).collect()
    }
    fn violation(&mut self, st: &State, kind: &'static str, msg: String) {
        self.t.viol += 1;
        let sig = (kind.to_string(), msg.clone(), st.tag.clone());
        let n = self.vsig.entry(sig.clone()).or_insert(0);
        *n += 1;
        if *n > 1 || self.viols.len() >= self.cfg.max_viol {
            if let Some(v) =
                self.viols.iter_mut().find(|v| v.kind == kind && v.msg == msg && v.tag == st.tag)
            {
                v.count += 1;
            }
            return;
        }
        let tr = self.trace(st);
        let vals = self.values(st);
        self.viols.push(Violation { kind, msg, tag: st.tag.clone(), trace: tr, values: vals, count: 1 });
    }
    fn finish(&mut self, st: State, end: End) {
        self.t.paths += 1;
        self.t.steps += st.steps;
        self.t.maxvars = self.t.maxvars.max(st.vars.len() as u64);
        if st.vars.iter().any(|v| !st.fixed.get(*v as usize).copied().unwrap_or(false)) {
            self.t.nsym_paths += 1;
        }
        let es;
        match &end {
            End::Ok => {
                self.t.ok += 1;
                es = "ok".to_string();
                for r in &st.reach {
                    *self.reach.entry(*r).or_insert(0) += 1;
                }
            }
            End::Pruned => {
                self.t.pruned += 1;
                return;
            }
            End::Assert(m) => {
                self.violation(&st, "assert", m.clone());
                return;
            }
            End::Panic(m) => {
                if st.panic_ok {
                    self.t.panics_ok += 1;
                    es = "panic".to_string();
                } else {
                    self.violation(&st, "panic", m.clone());
                    return;
                }
            }
            End::Ub(m) => {
                if self.cfg.ub_prune {
                    self.t.pruned += 1;
                    return;
                }
                self.violation(&st, "ub", m.clone());
                return;
            }
            End::Limit(m) => {
                self.violation(&st, "limit", m.clone());
                return;
            }
            End::Unsup(m) => {
                let tr = self.trace(&st);
                self.inc(&format!("unsupported: {} [{}]", m, tr));
                return;
            }
        }
        // reservoir-like deterministic sample: keep the smallest keys
        let vals = self.values(&st);
        let mut h = self.cfg.seed ^ 0x9e3779b97f4a7c15;
        for (w, v) in &vals {
            h = (h.rotate_left(7) ^ (*v as u64) ^ ((*w as u64) << 56)).wrapping_mul(0x2545f4914f6cdd1d);
            h ^= h >> 29;
        }
        let keep = self.cfg.dump_all
            || self.samples.len() < self.cfg.samples
            || self.samples.last().is_some_and(|s| h < s.key);
        if keep && self.cfg.samples > 0 {
            let mut outs = vec![];
            for o in &st.outs {
                let mut b = vec![];
                for s in o {
                    b.push(if s.e == 0 {
                        s.idx
                    } else {
                        let e = self.bexpr(*s);
                        self.ev(&st, e) as u8
                    });
                }
                outs.push(b);
            }
            let pos = self.samples.partition_point(|s| s.key <= h);
            self.samples.insert(pos, Sample { values: vals, outs, tag: st.tag.clone(), end: es, key: h });
            if !self.cfg.dump_all {
                self.samples.truncate(self.cfg.samples);
            }
        }
    }
    fn jump(&mut self, p: &Prog, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.blk = to;
        fr.ip = 0;
        let base = fr.base;
        let b = &p.m.funcs[fr.f as usize].blocks[to as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, v) = &b.phis[0];
                let o = &v.iter().find(|(l, _)| *l == from).expect("phi edge").1;
                let x = Self::opnd(st, base, o);
                st.regs[(base + d) as usize] = x;
            }
            n => {
                let mut tmp = Vec::with_capacity(n);
                for (d, v) in &b.phis {
                    let o = &v.iter().find(|(l, _)| *l == from).expect("phi edge").1;
                    tmp.push((*d, Self::opnd(st, base, o)));
                }
                for (d, x) in tmp {
                    st.regs[(base + d) as usize] = x;
                }
            }
        }
    }
    fn fork_to(&mut self, p: &Prog, st: &State, c: E, m: &Option<Rc<Vec<(u32, u128)>>>, to: u32) {
        self.t.forks += 1;
        let mut o = st.clone();
        self.add_con(&mut o, c);
        Self::apply(&mut o.model, m);
        self.jump(p, &mut o, to);
        self.work.push(o);
    }

    fn step(&mut self, p: &Prog, st: &mut State) -> Flow {
        st.steps += 1;
        let fr = st.frames.last_mut().unwrap();
        let base = fr.base;
        let ins = &p.m.funcs[fr.f as usize].blocks[fr.blk as usize].ins[fr.ip as usize];
        fr.ip += 1;
        match self.step_ins(p, st, base, ins) {
            Ok(()) => {
                if st.frames.is_empty() {
                    Flow::End(End::Ok)
                } else {
                    Flow::Next
                }
            }
            Err(e) => Flow::End(e),
        }
    }

    #[inline]
    fn set(st: &mut State, base: u32, d: u32, v: Val) {
        st.regs[(base + d) as usize] = v;
    }

    fn step_ins(&mut self, p: &Prog, st: &mut State, base: u32, ins: &Ins) -> R<()> {
        match ins {
            Ins::Bin(k, w, d, a, b) => {
                let (a, b) = (Self::opnd(st, base, a), Self::opnd(st, base, b));
                let v = self.bin(*k, *w, &a, &b)?;
                Self::set(st, base, *d, v);
            }
            Ins::Icmp(pr, w, d, a, b) => {
                let (a, b) = (Self::opnd(st, base, a), Self::opnd(st, base, b));
                let v = self.icmp(*pr, *w, &a, &b);
                Self::set(st, base, *d, v);
            }
            Ins::Load(ty, d, q) => {
                let q = Self::opnd(st, base, q);
                let v = self.load_ty(st, &q, ty)?;
                Self::set(st, base, *d, v);
            }
            Ins::Store(ty, v, q) => {
                let v = Self::opnd(st, base, v);
                let q = Self::opnd(st, base, q);
                let a = self.cval(st, &q) as u64;
                self.store_ty(st, a, ty, &v)?;
            }
            Ins::Gep(d, b, off, terms) => {
                let b = Self::opnd(st, base, b);
                let mut acc = match b {
                    Val::C(k) => Val::C(k.wrapping_add(*off as u64)),
                    Val::S(e) => {
                        let k = self.x.cst(64, *off as u64 as u128);
                        let r = self.x.bin(Op::Add, e, k);
                        self.mk(r)
                    }
                    _ => return Err(End::Unsup("vector gep".into())),
                };
                for (o, w, sc) in terms.iter() {
                    let i = Self::opnd(st, base, o);
                    acc = match (&acc, &i) {
                        (Val::C(x), Val::C(k)) => {
                            let k = sext(*k as u128, *w) as i64;
                            Val::C(x.wrapping_add(k.wrapping_mul(*sc) as u64))
                        }
                        _ => {
                            let e = self.ex(&i, *w);
                            let e = if *w < 64 { self.x.sext(e, 64) } else { self.x.extract(e, 0, 64) };
                            let k = self.x.cst(64, *sc as u64 as u128);
                            let m = self.x.bin(Op::Mul, e, k);
                            let b = self.ex(&acc, 64);
                            let r = self.x.bin(Op::Add, b, m);
                            self.mk(r)
                        }
                    };
                }
                Self::set(st, base, *d, acc);
            }
            Ins::Br(t) => self.jump(p, st, *t),
            Ins::CondBr(c, a, b) => {
                let c = Self::opnd(st, base, c);
                match c {
                    Val::C(k) => self.jump(p, st, if k != 0 { *a } else { *b }),
                    Val::S(e) => {
                        if a == b {
                            self.jump(p, st, *a);
                            return Ok(());
                        }
                        let v = self.ev(st, e) != 0;
                        if !self.all_fixed(st, e) {
                            let ne = self.x.not1(e);
                            let (mine, oth) = if v { (e, ne) } else { (ne, e) };
                            let (r, m) = self.s.check(&mut self.x, &st.cons, oth);
                            match r {
                                Sat::Sat => {
                                    self.fork_to(p, st, oth, &m, if v { *b } else { *a });
                                    self.add_con(st, mine);
                                }
                                Sat::Unsat => {}
                                Sat::Unknown => {
                                    self.inc("solver unknown on branch");
                                    self.add_con(st, mine);
                                }
                            }
                        }
                        self.jump(p, st, if v { *a } else { *b });
                    }
                    _ => return ub("branch on aggregate"),
                }
            }
            Ins::Switch(w, v, dl, cs) => {
                let v = Self::opnd(st, base, v);
                if let Some(k) = Self::conc(&v) {
                    let t = cs.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*dl);
                    self.jump(p, st, t);
                    return Ok(());
                }
                let e = self.ex(&v, *w);
                let cur = self.ev(st, e);
                let tcur = cs.iter().find(|(c, _)| *c == cur).map(|x| x.1).unwrap_or(*dl);
                if self.all_fixed(st, e) {
                    self.jump(p, st, tcur);
                    return Ok(());
                }
                let mut groups: Vec<(u32, E)> = vec![];
                let mut dc = Ctx::TRUE;
                for (k, l) in cs.iter() {
                    let kk = self.x.cst(*w, *k);
                    let q = self.x.bin(Op::Eq, e, kk);
                    let nq = self.x.not1(q);
                    dc = self.x.bin(Op::And, dc, nq);
                    match groups.iter_mut().find(|g| g.0 == *l) {
                        Some(g) => g.1 = self.x.bin(Op::Or, g.1, q),
                        None => groups.push((*l, q)),
                    }
                }
                match groups.iter_mut().find(|g| g.0 == *dl) {
                    Some(g) => g.1 = self.x.bin(Op::Or, g.1, dc),
                    None => groups.push((*dl, dc)),
                }
                let mut mine = Ctx::TRUE;
                for (l, c) in groups {
                    if l == tcur {
                        mine = c;
                        continue;
                    }
                    let (r, m) = self.s.check(&mut self.x, &st.cons, c);
                    match r {
                        Sat::Sat => self.fork_to(p, st, c, &m, l),
                        Sat::Unsat => {}
                        Sat::Unknown => self.inc("solver unknown on switch"),
                    }
                }
                self.add_con(st, mine);
                self.jump(p, st, tcur);
            }
            Ins::Call(d, c, args, rt) => {
                let d = d.unwrap_or(u32::MAX);
                match c {
                    Callee::Fn(f) => {
                        let mut av = Vec::with_capacity(args.len());
                        for (_, o) in args.iter() {
                            av.push(Self::opnd(st, base, o));
                        }
                        return self.call(p, st, *f, av, d);
                    }
                    Callee::Ext(x) => {
                        let mut av = Vec::with_capacity(args.len());
                        for (_, o) in args.iter() {
                            av.push(Self::opnd(st, base, o));
                        }
                        return self.ext(p, st, *x, av, d, base, args, rt);
                    }
                    Callee::Ptr(o) => {
                        let v = Self::opnd(st, base, o);
                        let a = self.cval(st, &v) as u64;
                        let mut av = Vec::with_capacity(args.len());
                        for (_, o) in args.iter() {
                            av.push(Self::opnd(st, base, o));
                        }
                        let id = a >> 32;
                        if a & 0xffff_ffff != 0 {
                            return ub(format!("call to bad pointer {:#x}", a));
                        }
                        if id >= EXT_BASE {
                            return self.ext(p, st, (id - EXT_BASE) as u32, av, d, base, args, rt);
                        } else if id >= FN_BASE {
                            return self.call(p, st, (id - FN_BASE) as u32, av, d);
                        }
                        return ub(format!("call to bad pointer {:#x}", a));
                    }
                    Callee::Name(_) => unreachable!(),
                }
            }
            Ins::Ret(v) => {
                let mut v = v.as_ref().map(|o| Self::opnd(st, base, o));
                let fr = st.frames.pop().unwrap();
                if st.hash.on && p.hashfn[fr.f as usize] && st.hash.sel == Some(st.hash.cur) {
                    if let Some(Val::C(h)) = v {
                        let k = match st.hash.memo.get(&h) {
                            Some(k) => *k,
                            None if st.hash.memo.len() >= HASH_KEYS => h,
                            None => {
                                let used: Vec<u64> = st.hash.memo.values().map(|v| v & 63).collect();
                                let free: Vec<u64> = (0..HASH_KEYS as u64).filter(|i| !used.contains(i)).collect();
                                for i in free[1..].iter().rev() {
                                    let mut o = st.clone();
                                    Rc::make_mut(&mut o.hash.memo).insert(h, (h & !63) | i);
                                    self.hash_ret(&mut o, &fr, Val::C((h & !63) | i));
                                    self.work.push(o);
                                }
                                self.t.forks += free.len() as u64 - 1;
                                let k = (h & !63) | free[0];
                                Rc::make_mut(&mut st.hash.memo).insert(h, k);
                                k
                            }
                        };
                        v = Some(Val::C(k));
                    }
                }
                for id in st.allocas.drain(fr.abase as usize..) {
                    st.mem.release(id);
                }
                st.regs.truncate(fr.base as usize);
                if let Some(up) = st.frames.last() {
                    if fr.dst != u32::MAX {
                        if let Some(v) = v {
                            let b = up.base;
                            Self::set(st, b, fr.dst, v);
                        }
                    }
                } else {
                    st.ret = v;
                }
            }
            Ins::Alloca(d, sz, cnt) => {
                let n = match cnt {
                    None => *sz,
                    Some((_, o)) => {
                        let v = Self::opnd(st, base, o);
                        sz * self.cval(st, &v) as u64
                    }
                };
                let id = st.mem.alloc(vec![0; n as usize], false);
                st.allocas.push(id);
                Self::set(st, base, *d, Val::C(addr(id, 0)));
            }
            Ins::Cast(k, fw, tw, d, a) => {
                let a = Self::opnd(st, base, a);
                let v = self.cast(*k, *fw, *tw, &a);
                Self::set(st, base, *d, v);
            }
            Ins::Select(w, d, c, a, b) => {
                let c = Self::opnd(st, base, c);
                let v = match c {
                    Val::C(k) => Self::opnd(st, base, if k != 0 { a } else { b }),
                    Val::S(e) => {
                        let (x, y) = (Self::opnd(st, base, a), Self::opnd(st, base, b));
                        if *w == 0 || matches!(x, Val::A(_)) {
                            let k = self.concretize(st, e);
                            if k != 0 {
                                x
                            } else {
                                y
                            }
                        } else {
                            let (x, y) = (self.ex(&x, *w), self.ex(&y, *w));
                            let r = self.x.ite(e, x, y);
                            self.mk(r)
                        }
                    }
                    _ => return Err(End::Unsup("vector select".into())),
                };
                Self::set(st, base, *d, v);
            }
            Ins::Extract(d, a, ix) => {
                let mut v = Self::opnd(st, base, a);
                for i in ix.iter() {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(End::Unsup("extractvalue of scalar".into())),
                    };
                }
                Self::set(st, base, *d, v);
            }
            Ins::Insert(d, a, v, ix, ty) => {
                let a = Self::opnd(st, base, a);
                let v = Self::opnd(st, base, v);
                let r = insert(&a, &v, ix, ty);
                Self::set(st, base, *d, r);
            }
            Ins::Mov(d, a) => {
                let a = Self::opnd(st, base, a);
                Self::set(st, base, *d, a);
            }
            Ins::Nop => {}
            Ins::Unreachable => return ub("reached unreachable"),
            Ins::Unsupported(s) => return Err(End::Unsup(s.to_string())),
            Ins::FBin(k, w, d, a, b) => {
                let (a, b) = (Self::opnd(st, base, a), Self::opnd(st, base, b));
                let op = match k {
                    FBin::Add => Op::FAdd,
                    FBin::Sub => Op::FSub,
                    FBin::Mul => Op::FMul,
                    FBin::Div => Op::FDiv,
                    FBin::Rem => {
                        if let (Some(x), Some(y)) = (Self::conc(&a), Self::conc(&b)) {
                            let r = if *w == 32 {
                                (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64
                            } else {
                                (f64::from_bits(x as u64) % f64::from_bits(y as u64)).to_bits()
                            };
                            Self::set(st, base, *d, Val::C(r));
                            return Ok(());
                        }
                        return Err(End::Unsup("frem".into()));
                    }
                };
                let (x, y) = (self.ex(&a, *w), self.ex(&b, *w));
                let r = self.x.bin(op, x, y);
                let v = self.mk(r);
                Self::set(st, base, *d, v);
            }
            Ins::FNeg(w, d, a) => {
                let a = Self::opnd(st, base, a);
                let e = self.ex(&a, *w);
                let k = self.x.cst(*w, 1u128 << (w - 1));
                let r = self.x.bin(Op::Xor, e, k);
                let v = self.mk(r);
                Self::set(st, base, *d, v);
            }
            Ins::Fcmp(m, w, d, a, b) => {
                let (a, b) = (Self::opnd(st, base, a), Self::opnd(st, base, b));
                let r = self.fcmp(*m, *w, &a, &b);
                Self::set(st, base, *d, r);
            }
            Ins::AtomicRmw(k, ty, d, q, v) => {
                let q = Self::opnd(st, base, q);
                let v = Self::opnd(st, base, v);
                let a = self.cval(st, &q) as u64;
                let old = self.load_ty(st, &Val::C(a), ty)?;
                let w = ty.bits();
                let nv = match k {
                    0 => v,
                    1 => self.bin(Bin::Add, w, &old, &v)?,
                    2 => self.bin(Bin::Sub, w, &old, &v)?,
                    3 => self.bin(Bin::And, w, &old, &v)?,
                    4 => self.bin(Bin::Or, w, &old, &v)?,
                    5 => self.bin(Bin::Xor, w, &old, &v)?,
                    k => {
                        let pr = match k {
                            6 => Pred::Ugt,
                            7 => Pred::Ult,
                            8 => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(pr, w, &old, &v);
                        self.sel(w, &c, &old, &v)
                    }
                };
                self.store_ty(st, a, ty, &nv)?;
                Self::set(st, base, *d, old);
            }
            Ins::CmpXchg(ty, d, q, a, b) => {
                let q = Self::opnd(st, base, q);
                let cmp = Self::opnd(st, base, a);
                let new = Self::opnd(st, base, b);
                let a = self.cval(st, &q) as u64;
                let old = self.load_ty(st, &Val::C(a), ty)?;
                let w = ty.bits();
                let c = self.icmp(Pred::Eq, w, &old, &cmp);
                let nv = self.sel(w, &c, &new, &old);
                self.store_ty(st, a, ty, &nv)?;
                Self::set(st, base, *d, Val::A(Rc::new(vec![old, c])));
            }
        }
        Ok(())
    }
    pub fn sel(&mut self, w: u16, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(k) => {
                if *k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(e) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.x.ite(*e, x, y);
                self.mk(r)
            }
            _ => panic!("sel"),
        }
    }
    fn bin(&mut self, k: Bin, w: u16, a: &Val, b: &Val) -> R<Val> {
        let op = match k {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let m = if w >= 64 { !0u64 } else { (1u64 << w) - 1 };
            let (x, y) = (*x, *y);
            let r = match k {
                Bin::Add => x.wrapping_add(y) & m,
                Bin::Sub => x.wrapping_sub(y) & m,
                Bin::Mul => x.wrapping_mul(y) & m,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem if y == 0 => return ub("division by zero"),
                _ => eval_op(op, w, x as u128, w, y as u128, 0, 0, w) as u64,
            };
            return Ok(Val::C(r));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.x.bin(op, x, y);
        Ok(self.mk(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.x.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.x.bin(Op::Eq, x, y);
                self.x.not1(e)
            }
            Pred::Ult => self.x.bin(Op::Ult, x, y),
            Pred::Ule => self.x.bin(Op::Ule, x, y),
            Pred::Ugt => self.x.bin(Op::Ult, y, x),
            Pred::Uge => self.x.bin(Op::Ule, y, x),
            Pred::Slt => self.x.bin(Op::Slt, x, y),
            Pred::Sle => self.x.bin(Op::Sle, x, y),
            Pred::Sgt => self.x.bin(Op::Slt, y, x),
            Pred::Sge => self.x.bin(Op::Sle, y, x),
        };
        self.mk(r)
    }
    fn fcmp(&mut self, m: u8, w: u16, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            let (x, y) = if w == 32 {
                (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
            } else {
                (f64::from_bits(x as u64), f64::from_bits(y as u64))
            };
            let k = match x.partial_cmp(&y) {
                Some(std::cmp::Ordering::Less) => 1,
                Some(std::cmp::Ordering::Equal) => 2,
                Some(std::cmp::Ordering::Greater) => 4,
                None => 8,
            };
            return Val::C((m & k != 0) as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let nx = self.isnan(x);
        let ny = self.isnan(y);
        let uno = self.x.bin(Op::Or, nx, ny);
        let z = self.x.cst(w, 0);
        let absm = self.x.cst(w, mask(w) >> 1);
        let ax = self.x.bin(Op::And, x, absm);
        let ay = self.x.bin(Op::And, y, absm);
        let bz0 = self.x.bin(Op::Or, ax, ay);
        let bz = self.x.bin(Op::Eq, bz0, z);
        let same = self.x.bin(Op::Eq, x, y);
        let eq = self.x.bin(Op::Or, same, bz);
        let lt = {
            let sx = self.x.extract(x, w - 1, 1);
            let sy = self.x.extract(y, w - 1, 1);
            let ult = self.x.bin(Op::Ult, x, y);
            let ugt = self.x.bin(Op::Ult, y, x);
            // sx: y negative -> x > y as bits ; y positive -> true
            let neg = self.x.ite(sy, ugt, Ctx::TRUE);
            let pos = self.x.ite(sy, Ctx::FALSE, ult);
            let l = self.x.ite(sx, neg, pos);
            let ne = self.x.not1(eq);
            self.x.bin(Op::And, l, ne)
        };
        let ge0 = self.x.bin(Op::Or, lt, eq);
        let gt = self.x.not1(ge0);
        let mut ord = Ctx::FALSE;
        if m & 1 != 0 {
            ord = self.x.bin(Op::Or, ord, lt);
        }
        if m & 2 != 0 {
            ord = self.x.bin(Op::Or, ord, eq);
        }
        if m & 4 != 0 {
            ord = self.x.bin(Op::Or, ord, gt);
        }
        let un = if m & 8 != 0 { Ctx::TRUE } else { Ctx::FALSE };
        let r = self.x.ite(uno, un, ord);
        self.mk(r)
    }
    pub fn isnan(&mut self, e: E) -> E {
        let w = self.x.w(e);
        let absm = self.x.cst(w, mask(w) >> 1);
        let a = self.x.bin(Op::And, e, absm);
        let inf = self.x.cst(w, if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 });
        self.x.bin(Op::Ult, inf, a)
    }
    fn cast(&mut self, k: CastK, fw: u16, tw: u16, a: &Val) -> Val {
        match (k, a) {
            (CastK::Bit, _) => a.clone(),
            (CastK::Trunc, Val::C(v)) => Val::C(if tw >= 64 { *v } else { v & ((1u64 << tw) - 1) }),
            (CastK::ZExt, Val::C(v)) if tw <= 64 => Val::C(*v),
            (CastK::SExt, Val::C(v)) if tw <= 64 => {
                let s = sext(*v as u128, fw) as u64;
                Val::C(if tw >= 64 { s } else { s & ((1u64 << tw) - 1) })
            }
            _ => {
                let e = self.ex(a, fw);
                let r = match k {
                    CastK::Trunc => self.x.extract(e, 0, tw),
                    CastK::ZExt => self.x.zext(e, tw),
                    CastK::SExt => self.x.sext(e, tw),
                    CastK::FpTrunc | CastK::FpExt => self.x.un(Op::FCvt, e, tw, 0),
                    CastK::FpToSi => self.x.un(Op::FToS, e, tw, 0),
                    CastK::FpToUi => self.x.un(Op::FToU, e, tw, 0),
                    CastK::SiToFp => self.x.un(Op::SToF, e, tw, 0),
                    CastK::UiToFp => self.x.un(Op::UToF, e, tw, 0),
                    CastK::Bit => e,
                };
                self.mk(r)
            }
        }
    }
    fn call(&mut self, p: &Prog, st: &mut State, f: u32, av: Vec<Val>, d: u32) -> R<()> {
        match p.fk[f as usize] {
            FK::Normal => {}
            FK::PanicFmt => {
                let loc = av.last().cloned();
                let mut s = String::from("panic");
                if let Some(Val::C(a)) = loc {
                    s = format!("panic at {}", self.location(st, a));
                }
                return Err(End::Panic(s));
            }
            FK::PanicOther => {
                let n = demangle(&p.m.funcs[f as usize].name);
                return Err(End::Panic(format!("panic via {}", n)));
            }
            FK::Abort => return Err(End::Panic("abort".into())),
            FK::FmtFloat(n) => {
                // decimal text of a symbolic float is not modelled: nothing is written (harnesses never look at it)
                let v = self.load_scalar(st, &av[1].clone(), n as u64, n as u16 * 8)?;
                if let Val::S(_) = v {
                    self.t.float_text += 1;
                    if d != u32::MAX {
                        let b = st.frames.last().unwrap().base;
                        Self::set(st, b, d, Val::C(0));
                    }
                    return Ok(());
                }
            }
        }
        if st.frames.len() > 4000 {
            return Err(End::Limit("recursion depth".into()));
        }
        self.push_frame(st, f, av, d);
        Ok(())
    }
    fn location(&mut self, st: &mut State, a: u64) -> String {
        let mut g = |o: u64, n: u64| match st.mem.load(&mut self.x, a + o, n, n as u16 * 8) {
            Some(Val::C(k)) => k,
            _ => 0,
        };
        let (p, l, line, col) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
        let s = if l < 4096 { self.cstr_conc(st, p, l) } else { None };
        let f = s.map(|b| String::from_utf8_lossy(&b).trim_end_matches('\0').to_string()).unwrap_or_default();
        format!("{}:{}:{}", f, line, col)
    }
    fn newvar(&mut self, st: &mut State, w: u16) -> E {
        let k = st.vars.len() as u32;
        let i = match self.varmap.get(&(k, w)) {
            Some(i) => *i,
            None => {
                let i = self.x.widths.len() as u32;
                self.x.widths.push(w);
                self.varmap.insert((k, w), i);
                i
            }
        };
        st.vars.push(i);
        st.model.set(i, 0);
        self.x.var(i, w)
    }

    #[allow(clippy::too_many_arguments)]
    fn ext(
        &mut self,
        p: &Prog,
        st: &mut State,
        xi: u32,
        av: Vec<Val>,
        d: u32,
        base: u32,
        args: &[(Ty, Opnd)],
        rt: &Ty,
    ) -> R<()> {
        let name = &*p.xn[xi as usize];
        let set = |st: &mut State, v: Val| {
            if d != u32::MAX {
                Self::set(st, base, d, v)
            }
        };
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(p, st, n, av, d, base, args, rt);
        }
        macro_rules! c {
            ($i:expr) => {{
                let v = av[$i].clone();
                self.cval(st, &v) as u64
            }};
        }
        match name {
            "sym_int" => {
                let bits = c!(0) as u16;
                let v = self.newvar(st, bits);
                let r = if bits < 64 { self.x.zext(v, 64) } else { v };
                set(st, Val::S(r));
            }
            "sym_hash" => {
                st.hash = HashFork { on: c!(0) != 0, ..Default::default() };
                set(st, Val::C(0));
            }
            "sym_choice" => {
                // concretised symbolic choice in 0..n
                let n = c!(0).max(1);
                let v = self.newvar(st, 32);
                let mut others = vec![];
                for i in (1..n).rev() {
                    let mut o = st.clone();
                    let k = self.x.cst(32, i as u128);
                    let q = self.x.bin(Op::Eq, v, k);
                    self.add_con(&mut o, q);
                    let idx = *o.vars.last().unwrap();
                    o.model.set(idx, i as u128);
                    if d != u32::MAX {
                        Self::set(&mut o, base, d, Val::C(i));
                    }
                    others.push(o);
                }
                self.t.forks += others.len() as u64;
                self.work.extend(others);
                let k = self.x.cst(32, 0);
                let q = self.x.bin(Op::Eq, v, k);
                self.add_con(st, q);
                set(st, Val::C(0));
            }
            "sym_assume" => {
                let v = av[0].clone();
                match v {
                    Val::C(0) => return Err(End::Pruned),
                    Val::S(e) => {
                        let w = self.x.w(e);
                        let z = self.x.cst(w, 0);
                        let q0 = self.x.bin(Op::Eq, e, z);
                        let q = self.x.not1(q0);
                        if self.ev(st, q) == 0 {
                            let (r, m) = self.s.check(&mut self.x, &st.cons, q);
                            match r {
                                Sat::Sat => Self::apply(&mut st.model, &m),
                                Sat::Unsat => return Err(End::Pruned),
                                Sat::Unknown => {
                                    self.inc("solver unknown on assume");
                                    return Err(End::Pruned);
                                }
                            }
                        }
                        self.add_con(st, q);
                    }
                    _ => {}
                }
            }
            "sym_assert" => {
                self.t.asserts += 1;
                let v = av[0].clone();
                let (mp, ml) = (c!(1), c!(2));
                let msg = || -> String { String::new() };
                let _ = msg;
                match v {
                    Val::C(0) => {
                        let m = self.cstr_conc(st, mp, ml).unwrap_or_default();
                        return Err(End::Assert(String::from_utf8_lossy(&m).into_owned()));
                    }
                    Val::S(e) => {
                        let w = self.x.w(e);
                        let z = self.x.cst(w, 0);
                        let bad = self.x.bin(Op::Eq, e, z);
                        let good = self.x.not1(bad);
                        self.t.asserts_solver += 1;
                        let isbad = self.ev(st, bad) != 0;
                        let (r, m) = if isbad { (Sat::Sat, None) } else { self.s.check(&mut self.x, &st.cons, bad) };
                        match r {
                            Sat::Unsat => {}
                            Sat::Sat => {
                                let mut o = st.clone();
                                Self::apply(&mut o.model, &m);
                                let mm = self.cstr_conc(st, mp, ml).unwrap_or_default();
                                self.violation(&o, "assert", String::from_utf8_lossy(&mm).into_owned());
                                if isbad {
                                    let (r, m) = self.s.check(&mut self.x, &st.cons, good);
                                    if r != Sat::Sat {
                                        return Err(End::Pruned);
                                    }
                                    Self::apply(&mut st.model, &m);
                                }
                                self.add_con(st, good);
                            }
                            Sat::Unknown => {
                                if std::env::var_os("SYMX_DBG").is_some() {
                                    eprintln!("UNK assert {} {}", st.tag, self.x.show(bad, 14));
                                }
                                self.inc("solver unknown on assert");
                                self.add_con(st, good);
                            }
                        }
                    }
                    _ => {}
                }
            }
            "sym_out" => {
                let (a, n) = (c!(0), c!(1));
                match self.bytes(st, a, n) {
                    Some(b) => st.outs.push(b),
                    None => return ub("sym_out range"),
                }
            }
            "sym_tag" => {
                let (a, n) = (c!(0), c!(1));
                let b = self.cstr_conc(st, a, n).unwrap_or_default();
                st.tag = String::from_utf8_lossy(&b).into_owned();
            }
            "sym_reach" => {
                let k = c!(0) as u32;
                if !st.reach.contains(&k) {
                    st.reach.push(k);
                }
            }
            "sym_panic_ok" => st.panic_ok = c!(0) != 0,
            "sym_reseed" => {
                // change the randomness source and forget cached keys is up to the harness
                let k = c!(0);
                st.rng = k.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678;
            }
            "sym_is" => {
                // 1 under the symbolic engine (0 natively)
                set(st, Val::C(1));
            }
            "sym_conc" => {
                let v = c!(0);
                set(st, Val::C(v));
            }
            "malloc" => {
                let n = c!(0);
                if n > (1 << 31) {
                    set(st, Val::C(0));
                    return Ok(());
                }
                let id = st.mem.alloc(vec![0; n as usize], false);
                set(st, Val::C(addr(id, 0)));
            }
            "calloc" => {
                let n = c!(0).wrapping_mul(c!(1));
                let id = st.mem.alloc(vec![0; n as usize], false);
                set(st, Val::C(addr(id, 0)));
            }
            "posix_memalign" => {
                let n = c!(2);
                let pp = c!(0);
                let id = st.mem.alloc(vec![0; n as usize], false);
                self.store_ty(st, pp, &Ty::Ptr, &Val::C(addr(id, 0)))?;
                set(st, Val::C(0));
            }
            "realloc" => {
                let a = c!(0);
                let n = c!(1);
                let id = st.mem.alloc(vec![0; n as usize], false);
                if a != 0 {
                    let old = match st.mem.get((a >> 32) as u32) {
                        Some(o) => o.data.len() as u64,
                        None => return ub("realloc of invalid pointer"),
                    };
                    st.mem.copy(addr(id, 0), a, old.min(n)).map_err(|e| End::Ub(e.into()))?;
                    st.mem.release((a >> 32) as u32);
                }
                set(st, Val::C(addr(id, 0)));
            }
            "free" => {
                let a = c!(0);
                if a != 0 {
                    if a & 0xffff_ffff != 0 || st.mem.get((a >> 32) as u32).is_none() {
                        return ub("invalid free");
                    }
                    st.mem.release((a >> 32) as u32);
                }
            }
            "bcmp" | "memcmp" => {
                let (a, b, n) = (c!(0), c!(1), c!(2));
                let v = self.memcmp(st, a, b, n, name == "bcmp")?;
                set(st, v);
            }
            "memcpy" | "memmove" => {
                let (a, b, n) = (c!(0), c!(1), c!(2));
                st.mem.copy(a, b, n).map_err(|e| End::Ub(e.into()))?;
                set(st, Val::C(a));
            }
            "memset" => {
                let (a, n) = (c!(0), c!(2));
                self.memset(st, a, &av[1].clone(), n)?;
                set(st, Val::C(a));
            }
            "strlen" => {
                let a = c!(0);
                let mut k = 0u64;
                loop {
                    let b = self.load_scalar(st, &Val::C(a + k), 1, 8)?;
                    if self.cval(st, &b) == 0 {
                        break;
                    }
                    k += 1;
                }
                set(st, Val::C(k));
            }
            "memchr" => {
                let (a, ch, n) = (c!(0), c!(1), c!(2));
                let mut r = 0;
                for i in 0..n {
                    let b = self.load_scalar(st, &Val::C(a + i), 1, 8)?;
                    if self.cval(st, &b) as u8 == ch as u8 {
                        r = a + i;
                        break;
                    }
                }
                set(st, Val::C(r));
            }
            "getenv" | "secure_getenv" => set(st, Val::C(0)),
            "getrandom" => {
                let (a, n) = (c!(0), c!(1));
                self.rand(st, a, n)?;
                set(st, Val::C(n));
            }
            "getentropy" => {
                let (a, n) = (c!(0), c!(1));
                self.rand(st, a, n)?;
                set(st, Val::C(0));
            }
            "syscall" => {
                let k = c!(0);
                // riscv64: getrandom = 278, gettid = 178, futex = 98
                match k {
                    278 => {
                        let (a, n) = (c!(1), c!(2));
                        self.rand(st, a, n)?;
                        set(st, Val::C(n));
                    }
                    178 => set(st, Val::C(1)),
                    98 => return Err(End::Unsup("futex wait (deadlock?)".into())),
                    _ => return Err(End::Unsup(format!("syscall {}", k))),
                }
            }
            "clock_gettime" => {
                let a = c!(1);
                st.clock += 1_000_003;
                let (s, n) = (st.clock / 1_000_000_000, st.clock % 1_000_000_000);
                self.store_ty(st, a, &Ty::Int(64), &Val::C(s))?;
                self.store_ty(st, a + 8, &Ty::Int(64), &Val::C(n))?;
                set(st, Val::C(0));
            }
            "write" if c!(0) as u32 >= 100 => {
                let v = self.fs_call(st, "fs_write", &av)?.unwrap();
                set(st, v);
            }
            "write" | "writev" => {
                let n = if name == "write" { c!(2) } else { 1 << 16 };
                set(st, Val::C(n));
            }
            "__xpg_strerror_r" => {
                let a = c!(1);
                for (i, b) in b"os\0".iter().enumerate() {
                    self.store_ty(st, a + i as u64, &Ty::Int(8), &Val::C(*b as u64))?;
                }
                set(st, Val::C(0));
            }
            "__errno_location" => set(st, Val::C(p.errno)),
            "pthread_key_create" => {
                let a = c!(0);
                st.tls.push(0);
                let k = st.tls.len() as u64 - 1;
                self.store_ty(st, a, &Ty::Int(32), &Val::C(k))?;
                set(st, Val::C(0));
            }
            "pthread_key_delete" => set(st, Val::C(0)),
            "pthread_setspecific" => {
                let (k, v) = (c!(0), c!(1));
                if let Some(x) = st.tls.get_mut(k as usize) {
                    *x = v;
                }
                set(st, Val::C(0));
            }
            "pthread_getspecific" => {
                let k = c!(0);
                set(st, Val::C(st.tls.get(k as usize).copied().unwrap_or(0)));
            }
            "pthread_self" => set(st, Val::C(p.zero)),
            "__cxa_thread_atexit_impl" | "atexit" | "__cxa_atexit" => set(st, Val::C(0)),
            "abort" | "_exit" | "exit" => return Err(End::Panic(name.to_string())),
            "__asm__" => set(st, Val::C(0)),
            "__ubsan_trap" => return Err(End::Pruned),
            _ => {
                if let Some(v) = self.fs_call(st, name, &av)? {
                    let v = match v {
                        Val::C(x) if !matches!(name, "read" | "lseek64" | "lseek") => Val::C(x & 0xffff_ffff),
                        v => v,
                    };
                    set(st, v);
                    return Ok(());
                }
                return Err(End::Unsup(format!("extern {}", name)));
            }
        }
        Ok(())
    }
    fn rand(&mut self, st: &mut State, a: u64, n: u64) -> R<()> {
        for i in 0..n {
            st.rng ^= st.rng << 13;
            st.rng ^= st.rng >> 7;
            st.rng ^= st.rng << 17;
            let b = (st.rng >> 24) & 0xff;
            self.store_ty(st, a + i, &Ty::Int(8), &Val::C(b))?;
        }
        Ok(())
    }
    pub fn put_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        for (i, x) in b.iter().enumerate() {
            self.store_ty(st, a + i as u64, &Ty::Int(8), &Val::C(*x as u64))?;
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, a: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match v {
            Val::C(k) => {
                let (id, off) = match st.mem.find(a, n) {
                    Some(x) => x,
                    None => return ub("memset out of bounds"),
                };
                let o = st.mem.get_mut(id).unwrap();
                if o.ro {
                    return ub("memset of constant");
                }
                o.data[off..off + n as usize].fill(*k as u8);
                if let Some(s) = &mut o.sym {
                    s[off..off + n as usize].fill(SymB { e: 0, idx: 0 });
                }
                Ok(())
            }
            _ => {
                let e = match v {
                    Val::S(e) => self.x.extract(*e, 0, 8),
                    _ => return ub("memset"),
                };
                for i in 0..n {
                    self.store_ty(st, a + i, &Ty::Int(8), &Val::S(e))?;
                }
                Ok(())
            }
        }
    }
    fn memcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> R<Val> {
        if n == 0 {
            return Ok(Val::C(0));
        }
        let (x, y) = match (self.bytes(st, a, n), self.bytes(st, b, n)) {
            (Some(x), Some(y)) => (x, y),
            _ => return ub("memcmp out of bounds"),
        };
        if eq_only {
            let mut acc = Ctx::TRUE;
            for (p, q) in x.iter().zip(&y) {
                if p == q {
                    continue;
                }
                if p.e == 0 && q.e == 0 {
                    return Ok(Val::C(1));
                }
                let (p, q) = (self.bexpr(*p), self.bexpr(*q));
                let c = self.x.bin(Op::Eq, p, q);
                acc = self.x.bin(Op::And, acc, c);
                if acc == Ctx::FALSE {
                    return Ok(Val::C(1));
                }
            }
            let n = self.x.not1(acc);
            let r = self.x.zext(n, 32);
            return Ok(self.mk(r));
        }
        let mut acc = self.x.cst(32, 0);
        for (p, q) in x.iter().zip(&y).rev() {
            if p == q {
                continue;
            }
            let (p, q) = (self.bexpr(*p), self.bexpr(*q));
            let c = self.x.bin(Op::Eq, p, q);
            let (p, q) = (self.x.zext(p, 32), self.x.zext(q, 32));
            let dd = self.x.bin(Op::Sub, p, q);
            acc = self.x.ite(c, acc, dd);
        }
        Ok(self.mk(acc))
    }

    #[allow(clippy::too_many_arguments)]
    fn intrinsic(
        &mut self,
        p: &Prog,
        st: &mut State,
        n: &str,
        av: Vec<Val>,
        d: u32,
        base: u32,
        args: &[(Ty, Opnd)],
        rt: &Ty,
    ) -> R<()> {
        let _ = p;
        let set = |st: &mut State, v: Val| {
            if d != u32::MAX {
                Self::set(st, base, d, v)
            }
        };
        macro_rules! c {
            ($i:expr) => {{
                let v = av[$i].clone();
                self.cval(st, &v) as u64
            }};
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let (a, b, k) = (c!(0), c!(1), c!(2));
            return st.mem.copy(a, b, k).map_err(|e| End::Ub(e.into()));
        }
        if n.starts_with("memset") {
            let (a, k) = (c!(0), c!(2));
            return self.memset(st, a, &av[1].clone(), k);
        }
        if n.starts_with("lifetime") || n.starts_with("assume") || n.starts_with("dbg")
            || n.starts_with("experimental.noalias") || n.starts_with("prefetch") || n.starts_with("donothing")
        {
            return Ok(());
        }
        if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("launder")
            || n.starts_with("strip.invariant") || n.starts_with("ssa.copy") || n.starts_with("ptrmask")
        {
            if n.starts_with("ptrmask") {
                let w = 64;
                let v = self.bin(Bin::And, w, &av[0], &av[1])?;
                set(st, v);
                return Ok(());
            }
            set(st, av[0].clone());
            return Ok(());
        }
        if n.starts_with("ubsantrap") || n == "trap" || n.starts_with("debugtrap") {
            if self.cfg.ub_prune {
                return Err(End::Pruned);
            }
            return Err(End::Panic("trap".into()));
        }
        if n.starts_with("is.constant") {
            set(st, Val::C(0));
            return Ok(());
        }
        let w = if args.is_empty() { 0 } else { args[0].0.bits() };
        let ov = |s: &str| n.starts_with(s);
        if ov("uadd.with.overflow") || ov("usub.with.overflow") || ov("umul.with.overflow")
            || ov("sadd.with.overflow") || ov("ssub.with.overflow") || ov("smul.with.overflow")
        {
            let signed = n.starts_with('s');
            let op = match &n[1..4] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            if let (Some(x), Some(y), true) = (Self::conc(&av[0]), Self::conc(&av[1]), w <= 64) {
                let (r, o) = if signed {
                    let (x, y) = (sext(x, w), sext(y, w));
                    let t = match op {
                        Op::Add => x + y,
                        Op::Sub => x - y,
                        _ => x * y,
                    };
                    let m = t as u128 & mask(w);
                    (m, sext(m, w) != t)
                } else {
                    let t = match op {
                        Op::Add => x.wrapping_add(y),
                        Op::Sub => x.wrapping_sub(y),
                        _ => x.wrapping_mul(y),
                    };
                    (t & mask(w), t > mask(w))
                };
                set(st, Val::A(Rc::new(vec![Val::C(r as u64), Val::C(o as u64)])));
                return Ok(());
            }
            let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
            let r = self.x.bin(op, x, y);
            let o = match (op, signed) {
                (Op::Add, false) => self.x.bin(Op::Ult, r, x),
                (Op::Sub, false) => self.x.bin(Op::Ult, x, y),
                (Op::Add, true) => {
                    // overflow iff (x^r)&(y^r) < 0
                    let a = self.x.bin(Op::Xor, x, r);
                    let b = self.x.bin(Op::Xor, y, r);
                    let c = self.x.bin(Op::And, a, b);
                    self.x.extract(c, w - 1, 1)
                }
                (Op::Sub, true) => {
                    let a = self.x.bin(Op::Xor, x, y);
                    let b = self.x.bin(Op::Xor, x, r);
                    let c = self.x.bin(Op::And, a, b);
                    self.x.extract(c, w - 1, 1)
                }
                (_, sg) => {
                    if w > 64 {
                        return Err(End::Unsup("wide symbolic mul overflow".into()));
                    }
                    let (a, b) = if sg {
                        (self.x.sext(x, 2 * w), self.x.sext(y, 2 * w))
                    } else {
                        (self.x.zext(x, 2 * w), self.x.zext(y, 2 * w))
                    };
                    let full = self.x.bin(Op::Mul, a, b);
                    let back = if sg { self.x.sext(r, 2 * w) } else { self.x.zext(r, 2 * w) };
                    let e = self.x.bin(Op::Eq, full, back);
                    self.x.not1(e)
                }
            };
            let v = vec![self.mk(r), self.mk(o)];
            set(st, Val::A(Rc::new(v)));
            return Ok(());
        }
        macro_rules! ret {
            ($e:expr) => {{
                let e = $e;
                let v = self.mk(e);
                set(st, v);
                return Ok(());
            }};
        }
        if ov("uadd.sat") || ov("usub.sat") || ov("sadd.sat") || ov("ssub.sat") {
            let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
            if ov("usub.sat") {
                let c = self.x.bin(Op::Ult, x, y);
                let r = self.x.bin(Op::Sub, x, y);
                let z = self.x.cst(w, 0);
                ret!(self.x.ite(c, z, r));
            }
            if ov("uadd.sat") {
                let r = self.x.bin(Op::Add, x, y);
                let c = self.x.bin(Op::Ult, r, x);
                let z = self.x.cst(w, mask(w));
                ret!(self.x.ite(c, z, r));
            }
            let add = ov("sadd.sat");
            let r = self.x.bin(if add { Op::Add } else { Op::Sub }, x, y);
            let (a, b) = if add {
                (self.x.bin(Op::Xor, x, r), self.x.bin(Op::Xor, y, r))
            } else {
                (self.x.bin(Op::Xor, x, y), self.x.bin(Op::Xor, x, r))
            };
            let o = self.x.bin(Op::And, a, b);
            let o = self.x.extract(o, w - 1, 1);
            let sx = self.x.extract(x, w - 1, 1);
            let lo = self.x.cst(w, 1u128 << (w - 1));
            let hi = self.x.cst(w, mask(w) >> 1);
            let lim = self.x.ite(sx, lo, hi);
            ret!(self.x.ite(o, lim, r));
        }
        if ov("umin") || ov("umax") || ov("smin") || ov("smax") {
            let pr = match &n[..4] {
                "umin" => Pred::Ult,
                "umax" => Pred::Ugt,
                "smin" => Pred::Slt,
                _ => Pred::Sgt,
            };
            let c = self.icmp(pr, w, &av[0], &av[1]);
            let v = self.sel(w, &c, &av[0], &av[1]);
            set(st, v);
            return Ok(());
        }
        if ov("ucmp") || ov("scmp") {
            let pr = if ov("ucmp") { Pred::Ult } else { Pred::Slt };
            let rw = rt.bits();
            let lt = self.icmp(pr, w, &av[0], &av[1]);
            let gt = self.icmp(pr, w, &av[1], &av[0]);
            let m1 = self.kv(rw, mask(rw));
            let one = self.kv(rw, 1);
            let z = self.kv(rw, 0);
            let v = self.sel(rw, &gt, &one, &z);
            let v = self.sel(rw, &lt, &m1, &v);
            set(st, v);
            return Ok(());
        }
        if ov("abs.") {
            let z = self.kv(w, 0);
            let c = self.icmp(Pred::Slt, w, &av[0], &z);
            let ng = self.bin(Bin::Sub, w, &z, &av[0])?;
            let v = self.sel(w, &c, &ng, &av[0]);
            set(st, v);
            return Ok(());
        }
        if ov("ctlz") || ov("cttz") || ov("ctpop") {
            if let Some(k) = Self::conc(&av[0]) {
                let r = if ov("ctpop") {
                    k.count_ones()
                } else if ov("ctlz") {
                    if k == 0 {
                        w as u32
                    } else {
                        k.leading_zeros() - (128 - w as u32)
                    }
                } else if k == 0 {
                    w as u32
                } else {
                    k.trailing_zeros()
                };
                let v = self.kv(w, r as u128);
                set(st, v);
                return Ok(());
            }
            let e = self.ex(&av[0], w);
            if ov("ctpop") {
                let mut acc = self.x.cst(w, 0);
                for i in 0..w {
                    let b = self.x.extract(e, i, 1);
                    let b = if w > 1 { self.x.zext(b, w) } else { b };
                    acc = self.x.bin(Op::Add, acc, b);
                }
                ret!(acc);
            }
            let mut acc = self.x.cst(w, w as u128);
            let lead = ov("ctlz");
            for j in 0..w {
                // last assignment wins: iterate from least significant priority
                let (bit, val) = if lead { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                let b = self.x.extract(e, bit, 1);
                let k = self.x.cst(w, val as u128);
                acc = self.x.ite(b, k, acc);
            }
            ret!(acc);
        }
        if ov("fshl") || ov("fshr") {
            let sh = match Self::conc(&av[2]) {
                Some(k) => (k % w as u128) as u16,
                None => {
                    let e = self.ex(&av[2], w);
                    let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
                    let ww = self.x.cst(w, w as u128);
                    let s = self.x.bin(Op::URem, e, ww);
                    let cat = self.x.bin(Op::Concat, x, y);
                    let s2 = self.x.zext(s, 2 * w);
                    if ov("fshl") {
                        let r = self.x.bin(Op::Shl, cat, s2);
                        ret!(self.x.extract(r, w, w));
                    } else {
                        let r = self.x.bin(Op::LShr, cat, s2);
                        ret!(self.x.extract(r, 0, w));
                    }
                }
            };
            let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
            if sh == 0 {
                ret!(if ov("fshl") { x } else { y });
            }
            let lo = if ov("fshl") { w - sh } else { sh };
            let (h, l) = (self.x.extract(x, 0, lo), self.x.extract(y, lo, w - lo));
            ret!(self.x.bin(Op::Concat, h, l));
        }
        if ov("bitreverse") {
            let e = self.ex(&av[0], w);
            let mut acc: Option<E> = None;
            for i in 0..w {
                let b = self.x.extract(e, i, 1);
                acc = Some(match acc {
                    None => b,
                    Some(a) => self.x.bin(Op::Concat, a, b),
                });
            }
            ret!(acc.unwrap());
        }
        if ov("bswap") {
            let e = self.ex(&av[0], w);
            let mut acc: Option<E> = None;
            for i in 0..w / 8 {
                let b = self.x.extract(e, i * 8, 8);
                acc = Some(match acc {
                    None => b,
                    Some(a) => self.x.bin(Op::Concat, a, b),
                });
            }
            ret!(acc.unwrap());
        }
        if ov("fabs") {
            let e = self.ex(&av[0], w);
            let m = self.x.cst(w, mask(w) >> 1);
            ret!(self.x.bin(Op::And, e, m));
        }
        if ov("copysign") {
            let e = self.ex(&av[0], w);
            let f = self.ex(&av[1], w);
            let m = self.x.cst(w, mask(w) >> 1);
            let s = self.x.cst(w, 1u128 << (w - 1));
            let a = self.x.bin(Op::And, e, m);
            let b = self.x.bin(Op::And, f, s);
            ret!(self.x.bin(Op::Or, a, b));
        }
        if ov("sqrt") {
            let e = self.ex(&av[0], w);
            ret!(self.x.un(Op::FSqrt, e, w, 0));
        }
        if ov("floor") || ov("ceil") || ov("trunc") || ov("rint") || ov("nearbyint") || ov("round") {
            let k = if ov("floor") {
                0
            } else if ov("ceil") {
                1
            } else if ov("trunc") {
                2
            } else if ov("rint") || ov("nearbyint") || ov("roundeven") {
                3
            } else {
                4
            };
            let e = self.ex(&av[0], w);
            ret!(self.x.un(Op::FRound, e, w, k));
        }
        if ov("fptosi.sat") || ov("fptoui.sat") {
            let tw = rt.bits();
            let sg = ov("fptosi");
            let e = self.ex(&av[0], w);
            let nan = self.isnan(e);
            let (lo, hi, lof, hif): (u128, u128, f64, f64) = if sg {
                (1u128 << (tw - 1), mask(tw) >> 1, -(2f64.powi(tw as i32 - 1)), 2f64.powi(tw as i32 - 1))
            } else {
                (0, mask(tw), 0.0, 2f64.powi(tw as i32))
            };
            let fb = |f: f64| if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
            let v = av[0].clone();
            let below = self.fcmp(1 | 2, w, &v, &Val::C(fb(lof)));
            let above = self.fcmp(4 | 2, w, &v, &Val::C(fb(hif)));
            let conv = self.x.un(if sg { Op::FToS } else { Op::FToU }, e, tw, 0);
            let cv = self.mk(conv);
            let r = self.sel(tw, &above, &self.kv(tw, hi), &cv);
            let r = self.sel(tw, &below, &self.kv(tw, lo), &r);
            let nv = self.mk(nan);
            let r = self.sel(tw, &nv, &self.kv(tw, 0), &r);
            set(st, r);
            return Ok(());
        }
        if ov("minnum") || ov("maxnum") || ov("minimumnum") || ov("maximumnum") {
            let e0 = self.ex(&av[0], w);
            let e1 = self.ex(&av[1], w);
            let n0 = self.isnan(e0);
            let n1 = self.isnan(e1);
            let pr = if ov("min") { 1 } else { 4 };
            let c = self.fcmp(pr, w, &av[0], &av[1]);
            let v = self.sel(w, &c, &av[0], &av[1]);
            let n1v = self.mk(n1);
            let v = self.sel(w, &n1v, &av[0], &v);
            let n0v = self.mk(n0);
            let v = self.sel(w, &n0v, &av[1], &v);
            set(st, v);
            return Ok(());
        }
        if ov("fmuladd") || ov("fma") {
            if let (Some(x), Some(y), Some(z)) = (Self::conc(&av[0]), Self::conc(&av[1]), Self::conc(&av[2])) {
                let f = |v: u128| f64::from_bits(v as u64);
                let g = |v: u128| f32::from_bits(v as u32);
                let r = if w == 32 { (g(x).mul_add(g(y), g(z))).to_bits() as u64 } else { f(x).mul_add(f(y), f(z)).to_bits() };
                set(st, Val::C(r));
                return Ok(());
            }
        }
        if ov("pow.") || ov("powi.") || ov("exp") || ov("log") || ov("sin.") || ov("cos.") {
            if let Some(x) = Self::conc(&av[0]) {
                if w == 64 {
                    let x = f64::from_bits(x as u64);
                    let y = av.get(1).and_then(Self::conc);
                    let r = if ov("pow.") {
                        x.powf(f64::from_bits(y.unwrap() as u64))
                    } else if ov("powi.") {
                        x.powi(y.unwrap() as i32)
                    } else if ov("exp.") {
                        x.exp()
                    } else if ov("log.") {
                        x.ln()
                    } else if ov("log2.") {
                        x.log2()
                    } else if ov("log10.") {
                        x.log10()
                    } else {
                        return Err(End::Unsup(format!("llvm.{}", n)));
                    };
                    set(st, Val::C(r.to_bits()));
                    return Ok(());
                }
            }
        }
        if ov("vector.reduce") || ov("stacksave") || ov("stackrestore") {
            set(st, Val::C(0));
            return Ok(());
        }
        Err(End::Unsup(format!("llvm.{}", n)))
    }
}

fn insert(a: &Val, v: &Val, ix: &[u32], ty: &Ty) -> Val {
    if ix.is_empty() {
        return v.clone();
    }
    let i = ix[0] as usize;
    let mut items: Vec<Val> = match a {
        Val::A(x) => (**x).clone(),
        _ => {
            let n = match ty {
                Ty::Struct(f, _) => f.len(),
                Ty::Arr(n, _) => *n as usize,
                _ => i + 1,
            };
            vec![Val::C(0); n]
        }
    };
    while items.len() <= i {
        items.push(Val::C(0));
    }
    let sub = match ty {
        Ty::Struct(..) | Ty::Arr(..) => ty.field_off(i).1,
        _ => Ty::Int(64),
    };
    items[i] = insert(&items[i].clone(), v, &ix[1..], &sub);
    Val::A(Rc::new(items))
}

/// Very rough v0 demangling: keep the identifiers.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s<base62>_
            if let Some(k) = n[i..].find('_') {
                if n[i + 1..i + k].bytes().all(|c| c.is_ascii_alphanumeric()) && k < 16 {
                    i += k + 1;
                    continue;
                }
            }
        }
        if b[i] == b'B' {
            if let Some(k) = n[i..].find('_') {
                if k < 8 {
                    i += k + 1;
                    continue;
                }
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let st = if b.get(j) == Some(&b'_') { j + 1 } else { j };
            if l > 0 && st + l <= b.len() {
                out.push(n[st..st + l].to_string());
                i = st + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
pub fn _unused() -> u64 {
    BIG_READ
}
