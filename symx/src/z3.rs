//! Minimal hand-written binding to libz3 plus the query layer (slicing + caching).
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("symx: z3 error {}", m.to_string_lossy());
    }
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    c: P,
    bv: FxMap<E, P>,
    bl: FxMap<E, P>,
    cache: FxMap<Vec<E>, (Sat, Option<std::rc::Rc<Vec<(u32, u128)>>>)>,
    pub stats: Stats,
    timeout_ms: u32,
    inc: P, // incremental bit-vector solver
    qfbv: P,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let l = CString::new("QF_BV").unwrap();
            let qfbv = Z3_mk_string_symbol(c, l.as_ptr());
            let mut s = Solver {
                c,
                bv: FxMap::default(),
                bl: FxMap::default(),
                cache: FxMap::default(),
                stats: Stats::default(),
                timeout_ms,
                inc: std::ptr::null_mut(),
                qfbv,
            };
            s.inc = s.mk_inc();
            s
        }
    }
    unsafe fn set_to(&self, s: P) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("rlimit").unwrap();
        let ks = Z3_mk_string_symbol(self.c, k.as_ptr());
        Z3_params_set_uint(self.c, p, ks, self.timeout_ms);
        Z3_solver_set_params(self.c, s, p);
    }
    unsafe fn mk_inc(&self) -> P {
        let s = Z3_mk_solver_for_logic(self.c, self.qfbv);
        Z3_solver_inc_ref(self.c, s);
        self.set_to(s);
        s
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.c, a);
        a
    }
    fn num(&self, w: u16, k: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, s)
            } else {
                let t = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn is_pred(n: &Node) -> bool {
        n.w == 1
            && matches!(
                n.op,
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::And | Op::Or | Op::Xor
                    | Op::Const | Op::Ite
            )
    }
    fn tobool(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let n = x.nodes[e as usize];
        let c = self.c;
        let r = unsafe {
            if Self::is_pred(&n) {
                match n.op {
                    Op::Const => {
                        if n.k != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    Op::Ite => {
                        let (a, b, d) = (self.tobool(x, n.a), self.tobool(x, n.b), self.tobool(x, n.c));
                        Z3_mk_ite(c, a, b, d)
                    }
                    Op::And | Op::Or | Op::Xor => {
                        if n.op == Op::Xor && n.b == Ctx::TRUE {
                            let a = self.tobool(x, n.a);
                            Z3_mk_not(c, a)
                        } else {
                            let a = self.tobool(x, n.a);
                            let b = self.tobool(x, n.b);
                            let v = [a, b];
                            match n.op {
                                Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                                Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                                _ => Z3_mk_xor(c, a, b),
                            }
                        }
                    }
                    _ => {
                        if n.op == Op::Eq && x.w(n.a) == 1 {
                            let a = self.tobool(x, n.a);
                            let b = self.tobool(x, n.b);
                            Z3_mk_eq(c, a, b)
                        } else {
                            let a = self.tobv(x, n.a);
                            let b = self.tobv(x, n.b);
                            match n.op {
                                Op::Eq => Z3_mk_eq(c, a, b),
                                Op::Ult => Z3_mk_bvult(c, a, b),
                                Op::Ule => Z3_mk_bvule(c, a, b),
                                Op::Slt => Z3_mk_bvslt(c, a, b),
                                _ => Z3_mk_bvsle(c, a, b),
                            }
                        }
                    }
                }
            } else {
                let b = self.tobv(x, e);
                Z3_mk_eq(c, b, self.num(1, 1))
            }
        };
        let r = unsafe { self.keep(r) };
        self.bl.insert(e, r);
        r
    }
    fn fp(&mut self, x: &Ctx, e: E) -> P {
        let w = x.w(e);
        let b = self.tobv(x, e);
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, b, self.fsort(w)) }
    }
    fn fsort(&self, w: u16) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort_32(self.c)
            } else {
                Z3_mk_fpa_sort_64(self.c)
            }
        }
    }
    fn tobv(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = x.nodes[e as usize];
        let c = self.c;
        let r = unsafe {
            if Self::is_pred(&n) && n.op != Op::Const {
                let b = self.tobool(x, e);
                Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
            } else {
                match n.op {
                    Op::Const => self.num(n.w, n.k),
                    Op::Var => {
                        let nm = CString::new(format!("v{}_{}", n.k, n.w)).unwrap();
                        let s = Z3_mk_string_symbol(c, nm.as_ptr());
                        Z3_mk_const(c, s, Z3_mk_bv_sort(c, n.w as c_uint))
                    }
                    Op::Ite => {
                        let a = self.tobool(x, n.a);
                        let b = self.tobv(x, n.b);
                        let d = self.tobv(x, n.c);
                        Z3_mk_ite(c, a, b, d)
                    }
                    Op::Extract => {
                        let a = self.tobv(x, n.a);
                        Z3_mk_extract(c, (n.k as u16 + n.w - 1) as c_uint, n.k as c_uint, a)
                    }
                    Op::ZExt => {
                        let a = self.tobv(x, n.a);
                        Z3_mk_zero_ext(c, (n.w - x.w(n.a)) as c_uint, a)
                    }
                    Op::SExt => {
                        let a = self.tobv(x, n.a);
                        Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as c_uint, a)
                    }
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                        let a = self.fp(x, n.a);
                        let b = self.fp(x, n.b);
                        let rm = Z3_mk_fpa_rne(c);
                        let f = match n.op {
                            Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                            Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                            Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                            _ => Z3_mk_fpa_div(c, rm, a, b),
                        };
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    Op::FSqrt => {
                        let a = self.fp(x, n.a);
                        Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a))
                    }
                    Op::FRound => {
                        let a = self.fp(x, n.a);
                        let rm = match n.k {
                            0 => Z3_mk_fpa_rtn(c),
                            1 => Z3_mk_fpa_rtp(c),
                            2 => Z3_mk_fpa_rtz(c),
                            3 => Z3_mk_fpa_rne(c),
                            _ => Z3_mk_fpa_rna(c),
                        };
                        Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, a))
                    }
                    Op::SToF => {
                        let a = self.tobv(x, n.a);
                        let f = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w));
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    Op::UToF => {
                        let a = self.tobv(x, n.a);
                        let f = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w));
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    Op::FCvt => {
                        let a = self.fp(x, n.a);
                        let f = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w));
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    Op::FToS => {
                        let a = self.fp(x, n.a);
                        Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint)
                    }
                    Op::FToU => {
                        let a = self.fp(x, n.a);
                        Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint)
                    }
                    Op::Mul
                        if n.w <= 32
                            && x.as_const(n.b).is_none()
                            && x.as_const(n.a).is_none() =>
                    {
                        // share one multiplier with the double-width product (overflow checks)
                        let a = self.tobv(x, n.a);
                        let b = self.tobv(x, n.b);
                        let (sa, sb) = (
                            Z3_mk_sign_ext(c, n.w as c_uint, a),
                            Z3_mk_sign_ext(c, n.w as c_uint, b),
                        );
                        Z3_mk_extract(c, n.w as c_uint - 1, 0, Z3_mk_bvmul(c, sa, sb))
                    }
                    _ => {
                        let a = self.tobv(x, n.a);
                        let b = self.tobv(x, n.b);
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            _ => unreachable!("{:?}", n.op),
                        }
                    }
                }
            }
        };
        let r = unsafe { self.keep(r) };
        self.bv.insert(e, r);
        r
    }

    /// Is (conjunction of constraints) && q satisfiable? Returns a model for the relevant variables.
    pub fn check(
        &mut self,
        x: &mut Ctx,
        cons: &[E],
        q: E,
    ) -> (Sat, Option<std::rc::Rc<Vec<(u32, u128)>>>) {
        if q == Ctx::FALSE {
            return (Sat::Unsat, None);
        }
        // slice: constraints transitively sharing variables with q
        let mut vs: Vec<u32> = (*x.varset(q)).clone();
        let mut rel: Vec<E> = vec![];
        let mut rest: Vec<E> = cons.to_vec();
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < rest.len() {
                let s = x.varset(rest[i]);
                if s.iter().any(|v| vs.binary_search(v).is_ok()) {
                    for v in s.iter() {
                        if let Err(p) = vs.binary_search(v) {
                            vs.insert(p, *v);
                        }
                    }
                    rel.push(rest.swap_remove(i));
                    changed = true;
                } else {
                    i += 1;
                }
            }
            if !changed {
                break;
            }
        }
        rel.sort_unstable();
        rel.dedup();
        rel.push(q);
        if let Some(r) = self.cache.get(&rel) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = std::time::Instant::now();
        let fpq = rel.iter().any(|e| x.has_fp[*e as usize]);
        let r = unsafe {
            let s = if fpq {
                let s = Z3_mk_simple_solver(self.c);
                Z3_solver_inc_ref(self.c, s);
                self.set_to(s);
                s
            } else {
                Z3_solver_push(self.c, self.inc);
                self.inc
            };
            for e in &rel {
                let b = self.tobool(x, *e);
                Z3_solver_assert(self.c, s, b);
            }
            let mut res = match Z3_solver_check(self.c, s) {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            let mut s = s;
            let mut fresh = false;
            if res == Sat::Unknown && !fpq {
                // second attempt: the non-incremental QF_BV strategy
                Z3_solver_pop(self.c, self.inc, 1);
                fresh = true;
                s = self.mk_inc();
                for e in &rel {
                    let b = self.tobool(x, *e);
                    Z3_solver_assert(self.c, s, b);
                }
                res = match Z3_solver_check(self.c, s) {
                    1 => Sat::Sat,
                    -1 => Sat::Unsat,
                    _ => Sat::Unknown,
                };
            }
            let mut model = None;
            if res == Sat::Sat {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                // collect var nodes
                for v in vs.iter() {
                    // variables are identified by index; find width through registry
                    let w = x.var_width(*v);
                    let ve = x.var(*v, w);
                    let p = self.tobv(x, ve);
                    let mut r: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, p, true, &mut r) {
                        let mut u = 0u64;
                        let val = if Z3_get_numeral_uint64(self.c, r, &mut u) {
                            u as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(self.c, r))
                                .to_string_lossy()
                                .parse()
                                .unwrap_or(0)
                        };
                        out.push((*v, val));
                    }
                }
                Z3_model_dec_ref(self.c, m);
                model = Some(std::rc::Rc::new(out));
            }
            if fpq || fresh {
                Z3_solver_dec_ref(self.c, s);
            } else {
                Z3_solver_pop(self.c, self.inc, 1);
            }
            (res, model)
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match r.0 {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(rel, r.clone());
        r
    }
}
