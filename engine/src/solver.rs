//! z3 back end: path-condition slices are translated to QF_BV and decided by z3.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {}: {:?}", e, m);
    }
    std::process::abort();
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub byte_domain: u64,
    pub model_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    fast: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    cache: HashMap<Vec<E>, Res>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub dump: Option<String>,
    nq: u64,
    /// give up after the quick attempt
    pub fast_only: bool,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let fast = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, fast);
            let s = Solver { ctx, fast, bv: HashMap::new(), bl: HashMap::new(), cache: HashMap::new(), stats: Stats::default(), timeout_ms: 120_000, dump: None, nq: 0, fast_only: false };
            s.set_timeout(fast, 500);
            s
        }
    }
    unsafe fn set_timeout(&self, s: P, ms: u32) {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), ms);
        Z3_solver_set_params(self.ctx, s, p);
    }
    unsafe fn num(&self, v: u128, w: u16) -> P {
        let so = Z3_mk_bv_sort(self.ctx, w as c_uint);
        let r = if w <= 64 {
            Z3_mk_unsigned_int64(self.ctx, v as u64, so)
        } else {
            let s = CString::new(format!("{}", v)).unwrap();
            Z3_mk_numeral(self.ctx, s.as_ptr(), so)
        };
        Z3_inc_ref(self.ctx, r);
        r
    }
    unsafe fn keep(&self, p: P) -> P {
        Z3_inc_ref(self.ctx, p);
        p
    }
    unsafe fn var(&mut self, a: &Arena, v: u32) -> P {
        let _ = a;
        let s = CString::new(format!("v{}", v)).unwrap();
        let r = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), Z3_mk_bv_sort(self.ctx, 8));
        self.keep(r)
    }
    unsafe fn ranges(&mut self, x: P, w: u16, rs: &[(u128, u128)]) -> P {
        let mut parts = vec![];
        for &(lo, hi) in rs {
            let p = if lo == hi {
                let k = self.num(lo, w);
                self.keep(Z3_mk_eq(self.ctx, x, k))
            } else {
                let l = self.num(lo, w);
                let h = self.num(hi, w);
                let c1 = self.keep(Z3_mk_bvule(self.ctx, l, x));
                let c2 = self.keep(Z3_mk_bvule(self.ctx, x, h));
                let arr = [c1, c2];
                self.keep(Z3_mk_and(self.ctx, 2, arr.as_ptr()))
            };
            parts.push(p);
        }
        if parts.len() == 1 {
            return parts[0];
        }
        self.keep(Z3_mk_or(self.ctx, parts.len() as c_uint, parts.as_ptr()))
    }
    /// boolean translation of a 1-bit expression
    unsafe fn tb(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let c = self.ctx;
        let r = match a.node(e) {
            Node::Const(k) => {
                if k != 0 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Node::InSet(v, m) => {
                let x = self.tv(a, v);
                let m = a.masks[m as usize];
                let neg = mask_count(&m) > 128;
                let mm = if neg { mask_not(&m) } else { m };
                let mut rs: Vec<(u128, u128)> = vec![];
                for i in 0..256u128 {
                    if mask_has(&mm, i as u8) {
                        if let Some(l) = rs.last_mut() {
                            if l.1 + 1 == i {
                                l.1 = i;
                                continue;
                            }
                        }
                        rs.push((i, i));
                    }
                }
                let r = self.ranges(x, 8, &rs);
                if neg {
                    Z3_mk_not(c, r)
                } else {
                    r
                }
            }
            Node::Bin(op, x, y) => {
                let w = a.w(x);
                if w == 1 {
                    let p = self.tb(a, x);
                    let q = self.tb(a, y);
                    let arr = [p, q];
                    match op {
                        Op::And | Op::Mul => Z3_mk_and(c, 2, arr.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, arr.as_ptr()),
                        Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, p, q),
                        Op::Eq => Z3_mk_eq(c, p, q),
                        Op::Ult | Op::Sle => {
                            // Ult: !p & q ; Sle on 1 bit (1 is -1): p <= q signed: p || !q
                            if op == Op::Ult {
                                let np = self.keep(Z3_mk_not(c, p));
                                let arr = [np, q];
                                Z3_mk_and(c, 2, arr.as_ptr())
                            } else {
                                let nq = self.keep(Z3_mk_not(c, q));
                                let arr = [p, nq];
                                Z3_mk_or(c, 2, arr.as_ptr())
                            }
                        }
                        Op::Ule => {
                            let np = self.keep(Z3_mk_not(c, p));
                            let arr = [np, q];
                            Z3_mk_or(c, 2, arr.as_ptr())
                        }
                        Op::Slt => {
                            let nq = self.keep(Z3_mk_not(c, q));
                            let arr = [p, nq];
                            Z3_mk_and(c, 2, arr.as_ptr())
                        }
                        _ => panic!("1-bit op {:?}", op),
                    }
                } else {
                    let p = self.t(a, x);
                    let q = self.t(a, y);
                    match op {
                        Op::Eq => Z3_mk_eq(c, p, q),
                        Op::Ult => Z3_mk_bvult(c, p, q),
                        Op::Ule => Z3_mk_bvule(c, p, q),
                        Op::Slt => Z3_mk_bvslt(c, p, q),
                        Op::Sle => Z3_mk_bvsle(c, p, q),
                        _ => panic!("bool op {:?}", op),
                    }
                }
            }
            Node::Not(x) => {
                let p = self.tb(a, x);
                Z3_mk_not(c, p)
            }
            Node::Ite(x, y, z) => {
                let p = self.tb(a, x);
                let q = self.tb(a, y);
                let r = self.tb(a, z);
                Z3_mk_ite(c, p, q, r)
            }
            Node::Extract(x, lo) => {
                let p = self.t(a, x);
                let b = self.keep(Z3_mk_extract(c, lo as c_uint, lo as c_uint, p));
                let one = self.num(1, 1);
                Z3_mk_eq(c, b, one)
            }
            Node::Table(..) => {
                let p = self.table(a, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, p, one)
            }
            n => panic!("bool node {:?}", n),
        };
        let r = self.keep(r);
        self.bl.insert(e, r);
        r
    }
    unsafe fn tv(&mut self, a: &Arena, v: u32) -> P {
        // variable nodes are cached by a pseudo id
        let key = u32::MAX - v;
        if let Some(&p) = self.bv.get(&key) {
            return p;
        }
        let p = self.var(a, v);
        self.bv.insert(key, p);
        p
    }
    unsafe fn table(&mut self, a: &Arena, e: E) -> P {
        let (tid, idx) = match a.node(e) {
            Node::Table(t, i) => (t, i),
            _ => unreachable!(),
        };
        let iw = a.w(idx);
        let x = self.t(a, idx);
        let tab = &a.tables[tid as usize];
        let w = tab.w;
        let m = maskw(w);
        // segments: constant, or value = idx + delta
        let n = tab.vals.len();
        let mut segs: Vec<(usize, usize, Option<u128>, u128)> = vec![]; // lo, hi, const, delta
        let mut i = 0;
        while i < n {
            let mut j = i;
            while j + 1 < n && tab.vals[j + 1] == tab.vals[i] {
                j += 1;
            }
            let mut k = i;
            let d = tab.vals[i].wrapping_sub(i as u128) & m;
            while k + 1 < n && tab.vals[k + 1].wrapping_sub((k + 1) as u128) & m == d {
                k += 1;
            }
            if k > j + 1 {
                segs.push((i, k, None, d));
                i = k + 1;
            } else {
                segs.push((i, j, Some(tab.vals[i]), 0));
                i = j + 1;
            }
        }
        let c = self.ctx;
        let xw = if w == iw {
            x
        } else if w < iw {
            self.keep(Z3_mk_extract(c, w as c_uint - 1, 0, x))
        } else {
            self.keep(Z3_mk_zero_ext(c, (w - iw) as c_uint, x))
        };
        // balanced tree of ite on idx <= hi
        fn build(s: &mut Solver, segs: &[(usize, usize, Option<u128>, u128)], x: P, xw: P, iw: u16, w: u16) -> P {
            unsafe {
                if segs.len() == 1 {
                    return match segs[0].2 {
                        Some(k) => s.num(k, w),
                        None => {
                            let d = s.num(segs[0].3, w);
                            s.keep(Z3_mk_bvadd(s.ctx, xw, d))
                        }
                    };
                }
                let mid = segs.len() / 2;
                let l = build(s, &segs[..mid], x, xw, iw, w);
                let r = build(s, &segs[mid..], x, xw, iw, w);
                let k = s.num(segs[mid - 1].1 as u128, iw);
                let cnd = s.keep(Z3_mk_bvule(s.ctx, x, k));
                s.keep(Z3_mk_ite(s.ctx, cnd, l, r))
            }
        }
        // out-of-range -> 0
        if iw < 64 && (n as u128) <= maskw(iw) || iw >= 64 {
            segs.push((n, usize::MAX, Some(0), 0));
        }
        build(self, &segs, x, xw, iw, w)
    }
    /// bit-vector translation
    unsafe fn t(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let c = self.ctx;
        let w = a.w(e);
        let r = if w == 1 {
            let b = self.tb(a, e);
            let one = self.num(1, 1);
            let zero = self.num(0, 1);
            Z3_mk_ite(c, b, one, zero)
        } else {
            match a.node(e) {
                Node::Const(k) => self.num(k, w),
                Node::Var(v) => self.tv(a, v),
                Node::Not(x) => {
                    let p = self.t(a, x);
                    Z3_mk_bvnot(c, p)
                }
                Node::Extract(x, lo) => {
                    let p = self.t(a, x);
                    Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, p)
                }
                Node::ZExt(x) => {
                    let p = self.t(a, x);
                    Z3_mk_zero_ext(c, (w - a.w(x)) as c_uint, p)
                }
                Node::SExt(x) => {
                    let p = self.t(a, x);
                    Z3_mk_sign_ext(c, (w - a.w(x)) as c_uint, p)
                }
                Node::Ite(x, y, z) => {
                    let p = self.tb(a, x);
                    let q = self.t(a, y);
                    let r = self.t(a, z);
                    Z3_mk_ite(c, p, q, r)
                }
                Node::Table(..) => self.table(a, e),
                Node::InSet(..) => unreachable!(),
                Node::Bin(op, x, y) => {
                    let p = self.t(a, x);
                    let q = self.t(a, y);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, p, q),
                        Op::Sub => Z3_mk_bvsub(c, p, q),
                        Op::Mul => Z3_mk_bvmul(c, p, q),
                        Op::UDiv => Z3_mk_bvudiv(c, p, q),
                        Op::URem => Z3_mk_bvurem(c, p, q),
                        Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                        Op::SRem => Z3_mk_bvsrem(c, p, q),
                        Op::And => Z3_mk_bvand(c, p, q),
                        Op::Or => Z3_mk_bvor(c, p, q),
                        Op::Xor => Z3_mk_bvxor(c, p, q),
                        Op::Shl => Z3_mk_bvshl(c, p, q),
                        Op::LShr => Z3_mk_bvlshr(c, p, q),
                        Op::AShr => Z3_mk_bvashr(c, p, q),
                        Op::Concat => Z3_mk_concat(c, p, q),
                        _ => panic!("bv op"),
                    }
                }
            }
        };
        let r = self.keep(r);
        self.bv.insert(e, r);
        r
    }

    /// Decide the conjunction of `cs` (already sliced). `vars`: variables to report.
    pub fn check(&mut self, a: &Arena, mut cs: Vec<E>, vars: &[u32]) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let r = unsafe { self.run(a, &cs, vars) };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        self.stats.queries += 1;
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown if self.fast_only => return r,
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(cs, r.clone());
        r
    }
    unsafe fn run(&mut self, a: &Arena, cs: &[E], vars: &[u32]) -> Res {
        let c = self.ctx;
        let mut asts = vec![];
        for &e in cs {
            asts.push(self.tb(a, e));
        }
        self.nq += 1;
        Z3_solver_push(c, self.fast);
        for &p in &asts {
            Z3_solver_assert(c, self.fast, p);
        }
        if let Some(d) = &self.dump {
            let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.fast)).to_string_lossy().into_owned();
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.nq), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
        }
        let r = Z3_solver_check(c, self.fast);
        let out = if r == 0 { self.extract_or_slow(r, self.fast, a, &asts, vars) } else { self.extract_or_slow(r, self.fast, a, &asts, vars) };
        Z3_solver_pop(c, self.fast, 1);
        out
    }
    unsafe fn extract_or_slow(&mut self, r: c_int, s: P, a: &Arena, asts: &[P], vars: &[u32]) -> Res {
        let c = self.ctx;
        match r {
            1 => self.model(s, a, vars),
            -1 => Res::Unsat,
            _ if self.fast_only => Res::Unknown,
            _ => {
                let l = CString::new("QF_BV").unwrap();
                let slow = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
                Z3_solver_inc_ref(c, slow);
                self.set_timeout(slow, self.timeout_ms);
                for &p in asts {
                    Z3_solver_assert(c, slow, p);
                }
                let r = Z3_solver_check(c, slow);
                let out = match r {
                    1 => self.model(slow, a, vars),
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                };
                Z3_solver_dec_ref(c, slow);
                out
            }
        }
    }
    unsafe fn model(&mut self, s: P, a: &Arena, vars: &[u32]) -> Res {
        let c = self.ctx;
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut out = vec![];
        for &v in vars {
            let x = self.tv(a, v);
            let mut r: P = std::ptr::null_mut();
            Z3_model_eval(c, m, x, true, &mut r);
            let mut u = 0u64;
            if Z3_get_numeral_uint64(c, r, &mut u) {
                out.push((v, u as u8));
            }
        }
        Z3_model_dec_ref(c, m);
        Res::Sat(Rc::new(out))
    }
}
