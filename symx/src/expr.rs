//! Hash-consed bit-vector expression DAG with simplification and concrete evaluation.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat, // a = high, b = low
    Extract, // k = low bit
    ZExt,
    SExt,
    // floating point (operands and results as IEEE bit patterns)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    SToF,
    UToF,
    FToS, // truncating, only used in range
    FToU,
    FCvt, // float<->double
    FRound, // k: 0 floor 1 ceil 2 trunc 3 rint(even) 4 round(away)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub vars: Vec<Option<std::rc::Rc<Vec<u32>>>>, // variable sets memo
    pub has_fp: Vec<bool>,
    pub widths: Vec<u16>, // per variable index
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn f_of(v: u128, w: u16) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
pub fn fbin(op: Op, a: u128, b: u128, w: u16) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}

pub fn eval_op(op: Op, w: u16, a: u128, aw: u16, b: u128, c: u128, k: u128, bw: u16) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y)) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y)) as u128 & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext(a, w);
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (x >> s) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat => ((a << bw) | b) & m,
        Op::Extract => (a >> k as u32) & m,
        Op::ZExt => a,
        Op::SExt => sext(a, aw) as u128 & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => fbin(op, a, b, w),
        Op::FSqrt => {
            if w == 32 {
                f32::from_bits(a as u32).sqrt().to_bits() as u128
            } else {
                f64::from_bits(a as u64).sqrt().to_bits() as u128
            }
        }
        Op::SToF => {
            let x = sext(a, aw);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::UToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::FToS => (f_of(a, aw) as i128) as u128 & m,
        Op::FToU => (f_of(a, aw) as u128) & m,
        Op::FCvt => {
            if w == 32 {
                (f64::from_bits(a as u64) as f32).to_bits() as u128
            } else {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            }
        }
        Op::FRound => {
            let f = |x: f64| match k {
                0 => x.floor(),
                1 => x.ceil(),
                2 => x.trunc(),
                3 => x.round_ties_even(),
                _ => x.round(),
            };
            if w == 32 {
                (f(f32::from_bits(a as u32) as f64) as f32).to_bits() as u128
            } else {
                f(f64::from_bits(a as u64)).to_bits() as u128
            }
        }
        Op::Const | Op::Var => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { nodes: vec![], map: FxMap::default(), vars: vec![], has_fp: vec![], widths: vec![] };
        c.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }); // id 0: false
        c.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 1 }); // id 1: true
        c
    }
    pub const FALSE: E = 0;
    pub const TRUE: E = 1;
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, id);
        self.vars.push(None);
        let fp = match n.op {
            Op::Const | Op::Var => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::SToF | Op::UToF
            | Op::FToS | Op::FToU | Op::FCvt | Op::FRound => true,
            _ => {
                self.has_fp[n.a as usize]
                    || self.has_fp[n.b as usize]
                    || self.has_fp[n.c as usize]
            }
        };
        self.has_fp.push(fp);
        id
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn cst(&mut self, w: u16, k: u128) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u16) -> E {
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    pub fn var_width(&self, idx: u32) -> u16 {
        self.widths[idx as usize]
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn varset(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative to avoid deep recursion
        let mut stack = vec![e];
        while let Some(&t) = stack.last() {
            if self.vars[t as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = self.nodes[t as usize];
            match n.op {
                Op::Const => {
                    self.vars[t as usize] = Some(std::rc::Rc::new(vec![]));
                    stack.pop();
                }
                Op::Var => {
                    self.vars[t as usize] = Some(std::rc::Rc::new(vec![n.k as u32]));
                    stack.pop();
                }
                _ => {
                    let kids = self.kids(&n);
                    let mut ready = true;
                    for &k in &kids {
                        if self.vars[k as usize].is_none() {
                            stack.push(k);
                            ready = false;
                        }
                    }
                    if ready {
                        let mut big: Option<std::rc::Rc<Vec<u32>>> = None;
                        for &k in &kids {
                            let s = self.vars[k as usize].as_ref().unwrap();
                            if s.is_empty() {
                                continue;
                            }
                            big = Some(match big {
                                None => s.clone(),
                                Some(b) => {
                                    if *b == **s {
                                        b
                                    } else {
                                        let mut m: Vec<u32> = (*b).clone();
                                        for x in s.iter() {
                                            if let Err(p) = m.binary_search(x) {
                                                m.insert(p, *x);
                                            }
                                        }
                                        std::rc::Rc::new(m)
                                    }
                                }
                            });
                        }
                        self.vars[t as usize] = Some(big.unwrap_or_default());
                        stack.pop();
                    }
                }
            }
        }
        self.vars[e as usize].clone().unwrap()
    }
    pub fn kids(&self, n: &Node) -> Vec<E> {
        match n.op {
            Op::Const | Op::Var => vec![],
            Op::Ite => vec![n.a, n.b, n.c],
            Op::Extract | Op::ZExt | Op::SExt | Op::FSqrt | Op::SToF | Op::UToF | Op::FToS
            | Op::FToU | Op::FCvt | Op::FRound => vec![n.a],
            _ => vec![n.a, n.b],
        }
    }
    pub fn not1(&mut self, e: E) -> E {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return if n.k == 0 { 1 } else { 0 },
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            Op::Xor if n.b == Self::TRUE => return n.a,
            _ => {}
        }
        self.mk(Node { op: Op::Xor, w: 1, a: e, b: Self::TRUE, c: 0, k: 0 })
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let aw = na.w;
        debug_assert!(op == Op::Concat || aw == nb.w, "{:?} {} {}", op, aw, nb.w);
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            Op::Concat => aw + nb.w,
            _ => aw,
        };
        let ca = na.op == Op::Const;
        let cb = nb.op == Op::Const;
        if ca && cb {
            let r = eval_op(op, w, na.k, aw, nb.k, 0, 0, nb.w);
            return self.cst(w, r);
        }
        // canonical: constant on the right for commutative ops
        let (mut a, mut b, mut na, mut nb, mut ca, mut cb) = (a, b, na, nb, ca, cb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (ca || (!cb && a > b))
        {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut na, &mut nb);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(aw);
        match op {
            Op::Add => {
                if cb && nb.k == 0 {
                    return a;
                }
                if cb && na.op == Op::Add {
                    if let Some(k2) = self.as_const(na.b) {
                        let k = self.cst(aw, k2.wrapping_add(nb.k));
                        return self.bin(Op::Add, na.a, k);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(aw, 0);
                }
                if cb {
                    let k = self.cst(aw, nb.k.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if cb && nb.k == 0 {
                    return b;
                }
                if cb && nb.k == 1 {
                    return a;
                }
            }
            Op::UDiv | Op::SDiv => {
                if cb && nb.k == 1 {
                    return a;
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb {
                    if nb.k == 0 {
                        return b;
                    }
                    if nb.k == m {
                        return a;
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if nb.k & mask(iw) == mask(iw) {
                            return a;
                        }
                        if iw > 1 {
                            let k = self.cst(iw, nb.k);
                            let r = self.bin(Op::And, na.a, k);
                            return self.zext(r, aw);
                        }
                    }
                    // low mask -> zext(extract)
                    if (nb.k & (nb.k + 1)) == 0 {
                        let bits = nb.k.count_ones() as u16;
                        let lo = self.extract(a, 0, bits);
                        return self.zext(lo, aw);
                    }
                }
                if aw == 1 && na.op == Op::Xor && na.b == Self::TRUE && na.a == b {
                    return Self::FALSE;
                }
                if aw == 1 && nb.op == Op::Xor && nb.b == Self::TRUE && nb.a == a {
                    return Self::FALSE;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if cb {
                    if nb.k == 0 {
                        return a;
                    }
                    if nb.k == m {
                        return b;
                    }
                }
                if aw > 1 {
                    if let Some(r) = self.or_merge(a, b) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(aw, 0);
                }
                if cb && nb.k == 0 {
                    return a;
                }
                if aw == 1 && cb {
                    return self.not1(a);
                }
                if cb && na.op == Op::Xor {
                    if let Some(k2) = self.as_const(na.b) {
                        let k = self.cst(aw, k2 ^ nb.k);
                        return self.bin(Op::Xor, na.a, k);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb && nb.k == 0 {
                    return a;
                }
                if cb && nb.k >= aw as u128 && op != Op::AShr {
                    return self.cst(aw, 0);
                }
                if cb && op == Op::AShr && nb.k < aw as u128 {
                    let sh = nb.k as u16;
                    let x = self.extract(a, sh, aw - sh);
                    return self.sext(x, aw);
                }
                if cb && op == Op::LShr {
                    // (zext x) >> k
                    let sh = nb.k as u16;
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if sh >= iw {
                            return self.cst(aw, 0);
                        }
                        let x = self.extract(na.a, sh, iw - sh);
                        return self.zext(x, aw);
                    }
                    let x = self.extract(a, sh, aw - sh);
                    return self.zext(x, aw);
                }
                if cb && op == Op::Shl {
                    let sh = nb.k as u16;
                    let lo = self.cst(sh, 0);
                    let hi = self.extract(a, 0, aw - sh);
                    return self.bin(Op::Concat, hi, lo);
                }
            }
            Op::Eq => {
                if a == b {
                    return Self::TRUE;
                }
                if cb {
                    if aw == 1 {
                        return if nb.k == 1 { a } else { self.not1(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if nb.k > mask(iw) {
                                return Self::FALSE;
                            }
                            let k = self.cst(iw, nb.k);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let low = nb.k & mask(iw);
                            if (sext(low, iw) as u128 & m) != nb.k {
                                return Self::FALSE;
                            }
                            let k = self.cst(iw, low);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if x.is_some() || y.is_some() {
                                match (x, y) {
                                    (Some(x), Some(y)) => {
                                        return match (x == nb.k, y == nb.k) {
                                            (true, true) => Self::TRUE,
                                            (true, false) => na.a,
                                            (false, true) => self.not1(na.a),
                                            _ => Self::FALSE,
                                        }
                                    }
                                    (Some(x), None) => {
                                        let r = self.bin(Op::Eq, na.c, b);
                                        if x == nb.k {
                                            return self.bin(Op::Or, na.a, r);
                                        }
                                        let n = self.not1(na.a);
                                        return self.bin(Op::And, n, r);
                                    }
                                    (None, Some(y)) => {
                                        let r = self.bin(Op::Eq, na.b, b);
                                        if y == nb.k {
                                            let n = self.not1(na.a);
                                            return self.bin(Op::Or, n, r);
                                        }
                                        return self.bin(Op::And, na.a, r);
                                    }
                                    _ => {}
                                }
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let k = self.cst(aw, nb.k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let k = self.cst(aw, nb.k ^ k2);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kl = self.cst(lw, nb.k);
                            let kh = self.cst(hw, nb.k >> lw);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b {
                    return Self::FALSE;
                }
                if cb && nb.k == 0 {
                    return Self::FALSE;
                }
                if cb && nb.k == 1 {
                    let z = self.cst(aw, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca && na.k == m {
                    return Self::FALSE;
                }
                if cb && na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if nb.k > mask(iw) {
                        return Self::TRUE;
                    }
                    let k = self.cst(iw, nb.k);
                    return self.bin(Op::Ult, na.a, k);
                }
                if ca && nb.op == Op::ZExt {
                    let iw = self.w(nb.a);
                    if na.k >= mask(iw) {
                        return Self::FALSE;
                    }
                    let k = self.cst(iw, na.k);
                    return self.bin(Op::Ult, k, nb.a);
                }
            }
            Op::Ule => {
                if a == b {
                    return Self::TRUE;
                }
                if ca && na.k == 0 {
                    return Self::TRUE;
                }
                if cb && nb.k == m {
                    return Self::TRUE;
                }
                if cb && nb.k == 0 {
                    return self.bin(Op::Eq, a, b);
                }
                if cb && na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if nb.k >= mask(iw) {
                        return Self::TRUE;
                    }
                    let k = self.cst(iw, nb.k);
                    return self.bin(Op::Ule, na.a, k);
                }
                if ca && nb.op == Op::ZExt {
                    let iw = self.w(nb.a);
                    if na.k > mask(iw) {
                        return Self::FALSE;
                    }
                    let k = self.cst(iw, na.k);
                    return self.bin(Op::Ule, k, nb.a);
                }
            }
            Op::Slt => {
                if a == b {
                    return Self::FALSE;
                }
                if cb && nb.k == 0 && na.op == Op::ZExt {
                    return Self::FALSE;
                }
            }
            Op::Sle => {
                if a == b {
                    return Self::TRUE;
                }
            }
            Op::Concat => {
                if ca && na.k == 0 {
                    return self.zext(b, w);
                }
                if na.op == Op::Extract
                    && nb.op == Op::Extract
                    && na.a == nb.a
                    && na.k == nb.k + nb.w as u128
                {
                    return self.extract(na.a, nb.k as u16, w);
                }
                // concat(extract hi x, x-low zext?) left alone
                if nb.op == Op::Concat && na.op == Op::Extract {
                    // (x[hi] . (x[mid] . y)) -> merge left part
                    let nba = self.nodes[nb.a as usize];
                    if nba.op == Op::Extract
                        && nba.a == na.a
                        && na.k == nba.k + nba.w as u128
                    {
                        let l = self.extract(na.a, nba.k as u16, na.w + nba.w);
                        return self.bin(Op::Concat, l, nb.b);
                    }
                }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    /// The low `w` bits of `e` have a form narrower than `e`.
    fn narrow(&self, e: E, w: u16) -> bool {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => true,
            Op::ZExt | Op::SExt => true,
            Op::Concat => self.w(n.b) >= w,
            _ => false,
        }
    }
    /// Split into segments, low to high; None is a run of zeros.
    fn segs(&mut self, e: E, out: &mut Vec<(Option<E>, u16)>, depth: u32) {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const if n.k == 0 => out.push((None, n.w)),
            Op::ZExt => {
                self.segs(n.a, out, depth);
                let iw = self.w(n.a);
                out.push((None, n.w - iw));
            }
            Op::Concat if depth > 0 => {
                self.segs(n.b, out, depth - 1);
                self.segs(n.a, out, depth - 1);
            }
            Op::And if self.as_const(n.b).is_some() => {
                let k = self.as_const(n.b).unwrap();
                let mut runs = vec![];
                let mut i = 0u16;
                while i < n.w {
                    let bit = (k >> i) & 1;
                    let mut j = i;
                    while j < n.w && (k >> j) & 1 == bit {
                        j += 1
                    }
                    runs.push((bit, i, j - i));
                    i = j;
                }
                if runs.len() > 6 {
                    out.push((Some(e), n.w));
                } else {
                    for (bit, lo, l) in runs {
                        if bit == 0 {
                            out.push((None, l))
                        } else {
                            let x = self.extract(n.a, lo, l);
                            out.push((Some(x), l))
                        }
                    }
                }
            }
            _ => out.push((Some(e), n.w)),
        }
    }
    /// a | b where no bit position is possibly set in both: a concatenation.
    fn or_merge(&mut self, a: E, b: E) -> Option<E> {
        let z = |n: &Node| matches!(n.op, Op::ZExt | Op::Concat | Op::And);
        if !z(&self.nodes[a as usize]) || !z(&self.nodes[b as usize]) {
            return None;
        }
        let (mut x, mut y) = (vec![], vec![]);
        self.segs(a, &mut x, 8);
        self.segs(b, &mut y, 8);
        let (mut i, mut j, mut io, mut jo) = (0, 0, 0u16, 0u16);
        let mut r: Vec<(Option<E>, u16)> = vec![];
        while i < x.len() && j < y.len() {
            let l = (x[i].1 - io).min(y[j].1 - jo);
            let p = match (x[i].0, y[j].0) {
                (None, None) => None,
                (Some(e), None) => Some(self.extract(e, io, l)),
                (None, Some(e)) => Some(self.extract(e, jo, l)),
                _ => return None,
            };
            r.push((p, l));
            io += l;
            jo += l;
            if io == x[i].1 {
                i += 1;
                io = 0
            }
            if jo == y[j].1 {
                j += 1;
                jo = 0
            }
        }
        let mut acc: Option<E> = None;
        for (p, l) in r {
            let e = match p {
                Some(e) => e,
                None => self.cst(l, 0),
            };
            acc = Some(match acc {
                None => e,
                Some(lo) => self.bin(Op::Concat, e, lo),
            });
        }
        acc
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Const {
            return if nc.k != 0 { a } else { b };
        }
        let w = self.w(a);
        if w == 1 {
            if a == Self::TRUE && b == Self::FALSE {
                return c;
            }
            if a == Self::FALSE && b == Self::TRUE {
                return self.not1(c);
            }
            if a == Self::TRUE {
                return self.bin(Op::Or, c, b);
            }
            if b == Self::FALSE {
                return self.bin(Op::And, c, a);
            }
            if a == Self::FALSE {
                let n = self.not1(c);
                return self.bin(Op::And, n, b);
            }
            if b == Self::TRUE {
                let n = self.not1(c);
                return self.bin(Op::Or, n, a);
            }
        }
        if nc.op == Op::Xor && nc.b == Self::TRUE {
            return self.ite(nc.a, b, a);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        debug_assert!(w > n.w);
        match n.op {
            Op::Const => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                    let (x, y) = (self.cst(w, x), self.cst(w, y));
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, sext(n.k, n.w) as u128),
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.nodes[a as usize];
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    return self.cst(w, 0);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.bin(Op::Concat, h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Mul if lo == 0 && (w >= 32 || self.narrow(n.a, w) && self.narrow(n.b, w)) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Sub if lo == 0 && (w >= 32 || self.narrow(n.a, w) && self.narrow(n.b, w)) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let (cb, cc) = (self.as_const(n.b).is_some(), self.as_const(n.c).is_some());
                if cb || cc {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn un(&mut self, op: Op, a: E, w: u16, k: u128) -> E {
        let n = self.nodes[a as usize];
        if n.op == Op::Const {
            let r = eval_op(op, w, n.k, n.w, 0, 0, k, 0);
            return self.cst(w, r);
        }
        self.mk(Node { op, w, a, b: 0, c: 0, k })
    }

    /// Evaluate under an assignment (missing variables are 0).
    pub fn eval(&self, e: E, model: &Model, memo: &mut FxMap<E, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as u32) & mask(n.w),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let r = if n.op == Op::Ite {
            let c = self.eval(n.a, model, memo);
            if c != 0 {
                self.eval(n.b, model, memo)
            } else {
                self.eval(n.c, model, memo)
            }
        } else {
            let a = self.eval(n.a, model, memo);
            let nk = matches!(
                n.op,
                Op::Extract | Op::ZExt | Op::SExt | Op::FSqrt | Op::SToF | Op::UToF | Op::FToS
                    | Op::FToU | Op::FCvt | Op::FRound
            );
            let b = if nk { 0 } else { self.eval(n.b, model, memo) };
            eval_op(n.op, n.w, a, self.w(n.a), b, 0, n.k, if nk { 0 } else { self.w(n.b) })
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ if depth == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}", n.op);
                for k in self.kids(n) {
                    s.push(' ');
                    s.push_str(&self.show(k, depth - 1));
                }
                if n.op == Op::Extract {
                    s.push_str(&format!(" @{}+{}", n.k, n.w));
                }
                s.push(')');
                s
            }
        }
    }
}

#[derive(Clone, Default)]
pub struct Model {
    pub v: Vec<u128>,
}
impl Model {
    pub fn get(&self, i: u32) -> u128 {
        self.v.get(i as usize).copied().unwrap_or(0)
    }
    pub fn set(&mut self, i: u32, x: u128) {
        if self.v.len() <= i as usize {
            self.v.resize(i as usize + 1, 0)
        }
        self.v[i as usize] = x
    }
}
