//! Path-wise symbolic execution of the LLVM IR.
use crate::expr::*;
use crate::ir::{self, BOp, Callee, Cast, Func, Inst, Module, Opd, Pred, Ty, K};
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub stack_base: usize,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub model: Vec<u8>,
    pub dom: Vec<Mask>,
    pub multi: Vec<bool>,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, u128>>,
    pub steps: u64,
    pub notes: Vec<Val>,
    pub covers: Vec<u32>,
    pub choices: u64,
    pub rand_ctr: u64,
    pub forks: u32,
    pub names: Rc<Vec<(u32, u32, String)>>,
    pub secret_from: Vec<(u32, u32)>,
    /// threads, once there is more than one (the running thread's frames are in `frames`)
    pub threads: Vec<Thread>,
    /// set by a call after which another thread is to run
    pub switch: bool,
    pub keys: u32,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub status: TStat,
    /// thread-local copies of thread-local globals: (global, copy)
    pub tls: Vec<(u64, u64)>,
    pub joiner: Option<usize>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TStat {
    Ready,
    Wait(u64),
    Dead,
}

pub enum Stop {
    /// path finished normally
    Done,
    /// infeasible / assumption violated
    Killed,
    Panic(String),
    Violation(String),
    Error(String),
    Timeout,
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Viol {
    pub label: String,
    pub site: String,
    pub tape: Vec<u8>,
    pub stack: Vec<String>,
    pub notes: Vec<u64>,
}

#[derive(Clone)]
pub struct Sample {
    pub tape: Vec<u8>,
    pub notes: Vec<u64>,
    pub covers: Vec<String>,
    pub constraints: usize,
    pub steps: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    Interp,
    Panic,
    Intr(In),
    Ext(Ex),
    Utf8,
    Memchr,
    LocalZone,
    Const0,
    /// a system call that the harness stands in for (parameter fs)
    StandIn(u32),
    Unknown,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum In {
    Memcpy,
    Memset,
    Umin,
    Umax,
    Smin,
    Smax,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    Sbb,
    Adc,
    SaddSat,
    SsubSat,
    Bswap,
    Bitrev,
    IsConst,
    Ctlz,
    Cttz,
    Ctpop,
    Abs,
    Scmp,
    Ucmp,
    Fshl,
    Fshr,
    Expect,
    Tls,
    Trap,
    RedOr,
    RedAnd,
    RedAdd,
    ObjSize,
    UshlSat,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ex {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memchr,
    Getenv,
    Minus1,
    Zero,
    Errno,
    Write,
    Syscall,
    ClockGettime,
    SymBytes,
    SymAssume,
    SymCheck,
    SymCover,
    SymParam,
    SymNote,
    SymConcretize,
    SymSecret,
    SymLeak,
    SymDebug,
    Read,
    Open,
    Sysconf,
    PthreadCreate,
    PthreadJoin,
    PthreadKey,
    PthreadSelf,
}

pub struct Limits {
    pub max_steps: u64,
    pub deadline: Instant,
    pub max_paths: u64,
    pub max_alloc: u64,
    pub mux_limit: u64,
    pub max_states: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths_done: u64,
    pub paths_killed: u64,
    pub paths_panic: u64,
    pub paths_error: u64,
    pub paths_truncated: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub branches_sym: u64,
    pub merges: u64,
    pub merged_states: u64,
    pub max_depth: u64,
}

pub struct Exec {
    pub m: Module,
    pub a: Arena,
    pub s: Solver,
    hooks: Vec<Option<Hook>>,
    pub params: HashMap<String, u64>,
    pub lim: Limits,
    pub st: Stats,
    pub viols: Vec<Viol>,
    pub viol_counts: BTreeMap<String, u64>,
    pub cover_ids: HashMap<String, u32>,
    pub cover_names: Vec<String>,
    pub cover_hits: Vec<u64>,
    pub cover_tape: Vec<Option<Vec<u8>>>,
    pub errors: BTreeMap<String, u64>,
    pub funcs_used: HashSet<u32>,
    pub samples: Vec<Sample>,
    pub sample_max: usize,
    pub rng: u64,
    pub work: Vec<State>,
    pub merge_pats: Vec<String>,
    merge_cache: HashMap<u32, bool>,
    pub stop_all: bool,
    pub timed_out: bool,
    pub vars_max: usize,
    pub max_viol: usize,
    errno_addr: u64,
    pub trace: bool,
    pub prof: HashMap<u32, u64>,
    pub prof_on: bool,
    pub fork_sites: HashMap<String, u64>,
    pub killed_in_sub: bool,
}

fn c(v: u128) -> Val {
    Val::C(v)
}
fn mw(w: u16) -> u128 {
    maskw(w)
}

impl Exec {
    pub fn new(m: Module, lim: Limits) -> Exec {
        let n = m.fns.len();
        Exec {
            m,
            a: Arena::new(),
            s: Solver::new(),
            hooks: vec![None; n],
            params: HashMap::new(),
            lim,
            st: Stats::default(),
            viols: vec![],
            viol_counts: BTreeMap::new(),
            cover_ids: HashMap::new(),
            cover_names: vec![],
            cover_hits: vec![],
            cover_tape: vec![],
            errors: BTreeMap::new(),
            funcs_used: HashSet::new(),
            samples: vec![],
            sample_max: 40,
            rng: 1,
            work: vec![],
            merge_pats: vec![],
            merge_cache: HashMap::new(),
            stop_all: false,
            timed_out: false,
            vars_max: 0,
            max_viol: 50,
            errno_addr: 0,
            trace: false,
            prof: HashMap::new(),
            prof_on: false,
            fork_sites: HashMap::new(),
            killed_in_sub: false,
        }
    }

    fn init_mem(&mut self) -> Mem {
        let mut mem = Mem::default();
        for g in &self.m.globals {
            let size = g.ty.size();
            let mut buf = vec![0u8; size as usize];
            if let Some(k) = &g.init {
                put_const(&mut buf, 0, k, &g.ty);
            }
            let o = Obj { size, bytes: Rc::new(buf), sym: None, freed: false, ro: g.constant };
            mem.glob.push(o);
        }
        let i = mem.glob.push(Obj::new(8, 0));
        self.errno_addr = (1 + i as u64) << 32;
        mem
    }

    pub fn start(&mut self, entry: &str) -> State {
        let id = *self.m.fn_by_name.get(entry).unwrap_or_else(|| panic!("no harness {}", entry));
        let f = self.m.func(id).expect("harness body");
        self.funcs_used.insert(id);
        let mem = self.init_mem();
        let fr = Frame { regs: vec![Val::C(0); f.nregs as usize], f, block: 0, ip: 0, stack_base: 0, dst: None, normal: None };
        State { frames: vec![fr], mem, model: vec![], dom: vec![], multi: vec![], pc: vec![], known: Rc::new(HashMap::new()), steps: 0, notes: vec![], covers: vec![], choices: 0, rand_ctr: 0, forks: 0, names: Rc::new(vec![]), secret_from: vec![], threads: vec![], switch: false, keys: 0 }
    }

    // ---------- values ----------
    fn e(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(k) => self.a.konst(*k, w),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("agg as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.a.as_const(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }
    fn kval(k: &K, t: &Ty) -> Val {
        match (k, t) {
            (K::Int(v), _) => Val::C(*v & mw(t.width().max(1))),
            (K::Zero, Ty::Int(_)) | (K::Zero, Ty::Ptr) => Val::C(0),
            (K::Zero, _) => Val::Agg(Rc::new((0..t.nelem()).map(|i| Self::kval(&K::Zero, t.elem(i))).collect())),
            (K::Agg(v), _) => Val::Agg(Rc::new(v.iter().enumerate().map(|(i, k)| Self::kval(k, t.elem(i as u64))).collect())),
        }
    }
    /// resolve a symbolic value that the path condition has already fixed
    fn resolve(&self, st: &State, e: E) -> Val {
        if let Some(&k) = st.known.get(&e) {
            return Val::C(k);
        }
        if let Node::InSet(v, m) = self.a.node(e) {
            // one byte, already confined by the path condition to one side of the test
            let d = &st.dom[v as usize];
            let m = mask_and(&self.a.masks[m as usize], d);
            if mask_empty(&m) {
                return Val::C(0);
            }
            if m == *d {
                return Val::C(1);
            }
        }
        let sup = &self.a.sups[self.a.sup[e as usize] as usize];
        if sup.len() <= 32 {
            for &v in sup.iter() {
                if mask_count(&st.dom[v as usize]) != 1 {
                    return Val::S(e);
                }
            }
            // all fixed: the model agrees with the domains
            return Val::C(u128::MAX); // marker, evaluated by caller
        }
        Val::S(e)
    }
    fn res(&mut self, st: &State, v: Val) -> Val {
        if let Val::S(e) = v {
            return match self.resolve(st, e) {
                Val::C(u128::MAX) => {
                    if let Some(&k) = st.known.get(&e) {
                        return Val::C(k);
                    }
                    Val::C(self.a.eval(e, &st.model))
                }
                r => r,
            };
        }
        v
    }
    fn op(&mut self, st: &mut State, o: &Opd) -> Val {
        match o {
            Opd::C(k) => Val::C(*k),
            Opd::R(r) => {
                let fr = st.frames.last().unwrap();
                let v = fr.regs[*r as usize].clone();
                if let Val::S(_) = v {
                    let n = self.res(st, v);
                    if let Val::C(_) = n {
                        st.frames.last_mut().unwrap().regs[*r as usize] = n.clone();
                    }
                    n
                } else {
                    v
                }
            }
            Opd::K(k) => Self::kval(&k.0, &k.1),
        }
    }
    #[inline]
    fn set(st: &mut State, r: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    // ---------- path condition ----------
    fn assert_in(&mut self, st: &mut State, e: E) {
        match self.a.node(e) {
            Node::Const(_) => {}
            Node::InSet(v, m) => {
                let m = self.a.masks[m as usize];
                st.dom[v as usize] = mask_and(&st.dom[v as usize], &m);
            }
            Node::Bin(Op::And, x, y) if self.a.w(e) == 1 => {
                self.assert_in(st, x);
                self.assert_in(st, y);
            }
            Node::Not(x) => {
                if let Node::Bin(Op::Or, p, q) = self.a.node(x) {
                    if self.a.w(x) == 1 {
                        let np = self.a.not(p);
                        let nq = self.a.not(q);
                        self.assert_in(st, np);
                        self.assert_in(st, nq);
                        return;
                    }
                }
                self.push_pc(st, e);
            }
            _ => self.push_pc(st, e),
        }
    }
    fn push_pc(&mut self, st: &mut State, e: E) {
        for &v in self.a.support(e).iter() {
            st.multi[v as usize] = true;
        }
        st.pc.push(e);
    }
    fn slice(&mut self, st: &State, e: E) -> (Vec<E>, Vec<u32>) {
        let mut vars: HashSet<u32> = self.a.support(e).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let mut cs = vec![e];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let sup = self.a.support(p);
                if sup.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cs.push(p);
                    vars.extend(sup.iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        let mut vs: Vec<u32> = vars.into_iter().collect();
        vs.sort_unstable();
        for &v in &vs {
            let d = st.dom[v as usize];
            if d != FULL {
                let x = self.a.in_set(v, d);
                cs.push(x);
            }
        }
        (cs, vs)
    }
    /// A model of pc && e, if any.
    fn sat(&mut self, st: &State, e: E) -> R<Option<Vec<u8>>> {
        if let Some(k) = self.a.as_const(e) {
            return Ok(if k != 0 { Some(st.model.clone()) } else { None });
        }
        if self.a.eval(e, &st.model) != 0 {
            self.s.stats.model_hits += 1;
            return Ok(Some(st.model.clone()));
        }
        if let Node::InSet(v, m) = self.a.node(e) {
            let m = mask_and(&self.a.masks[m as usize], &st.dom[v as usize]);
            if mask_empty(&m) {
                self.s.stats.byte_domain += 1;
                return Ok(None);
            }
            if !st.multi[v as usize] {
                self.s.stats.byte_domain += 1;
                let mut mo = st.model.clone();
                mo[v as usize] = mask_first(&m);
                return Ok(Some(mo));
            }
        }
        self.sat_z3(st, e)
    }
    fn sat_z3(&mut self, st: &State, e: E) -> R<Option<Vec<u8>>> {
        let (cs, vs) = self.slice(st, e);
        if cs.iter().any(|x| *x == self.a.f) {
            return Ok(None);
        }
        if Instant::now() > self.lim.deadline {
            return Err(Stop::Timeout);
        }
        // few joint values of the variables involved: decide by evaluating the constraints on each
        let mut size = 1u64;
        for &v in &vs {
            size = size.saturating_mul(mask_count(&st.dom[v as usize]) as u64);
        }
        if size <= 12_000 {
            return Ok(self.finite(st, &cs, &vs));
        }
        let small = size <= 120_000;
        self.s.fast_only = small;
        let r = self.s.check(&self.a, cs.clone(), &vs);
        self.s.fast_only = false;
        match r {
            Res::Sat(d) => {
                let mut mo = st.model.clone();
                for &(v, x) in d.iter() {
                    mo[v as usize] = x;
                }
                Ok(Some(mo))
            }
            Res::Unsat => Ok(None),
            Res::Unknown if small => Ok(self.finite(st, &cs, &vs)),
            Res::Unknown => Err(Stop::Error("solver returned unknown".into())),
        }
    }
    fn finite(&mut self, st: &State, cs: &[E], vs: &[u32]) -> Option<Vec<u8>> {
        self.s.stats.byte_domain += 1;
        let doms: Vec<Vec<u8>> = vs.iter().map(|&v| (0..=255u8).filter(|&b| mask_has(&st.dom[v as usize], b)).collect()).collect();
        if doms.iter().any(|d| d.is_empty()) {
            return None;
        }
        let mut mo = st.model.clone();
        let mut ix = vec![0usize; vs.len()];
        loop {
            for (k, &v) in vs.iter().enumerate() {
                mo[v as usize] = doms[k][ix[k]];
            }
            if self.a.eval_all(cs, &mo) {
                return Some(mo);
            }
            let mut k = 0;
            loop {
                if k == ix.len() {
                    return None;
                }
                ix[k] += 1;
                if ix[k] < doms[k].len() {
                    break;
                }
                ix[k] = 0;
                k += 1;
            }
        }
    }
    /// Decide a 1-bit expression on this path, forking when both outcomes are possible.
    fn branch(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(k) = self.a.as_const(e) {
            return Ok(k != 0);
        }
        if let Val::C(k) = self.res(st, Val::S(e)) {
            return Ok(k != 0);
        }
        self.st.branches_sym += 1;
        let cur = self.a.eval(e, &st.model) != 0;
        let ne = self.a.not(e);
        let (taken, other) = if cur { (e, ne) } else { (ne, e) };
        if let Some(mo) = self.sat(st, other)? {
            let mut o = st.clone();
            o.model = mo;
            o.forks += 1;
            self.assert_in(&mut o, other);
            self.st.forks += 1;
            if self.prof_on {
                let s = self.site(st);
                *self.fork_sites.entry(s).or_insert(0) += 1;
            }
            self.push_work(o);
        }
        self.assert_in(st, taken);
        Ok(cur)
    }
    fn push_work(&mut self, o: State) {
        self.work.push(o);
    }
    /// Fix a symbolic value, forking over every other feasible value.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u16) -> R<u128> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::S(e) => *e,
            _ => return Err(Stop::Error("concretize aggregate".into())),
        };
        if let Val::C(k) = self.res(st, Val::S(e)) {
            return Ok(k);
        }
        let k = self.a.eval(e, &st.model);
        let kc = self.a.konst(k, w);
        let eq = self.a.eq(e, kc);
        let ne = self.a.not(eq);
        if let Some(mo) = self.sat(st, ne)? {
            let mut o = st.clone();
            o.model = mo;
            o.forks += 1;
            self.assert_in(&mut o, ne);
            self.st.forks += 1;
            if self.prof_on {
                let s = format!("concretize {}", self.site(st));
                *self.fork_sites.entry(s).or_insert(0) += 1;
            }
            self.push_work(o);
        }
        self.assert_in(st, eq);
        Rc::make_mut(&mut st.known).insert(e, k);
        Ok(k)
    }

    // ---------- memory ----------
    fn merr(&self, st: &State, e: MemErr) -> Stop {
        Stop::Violation(format!("memory error {:?} in {}", e, self.site(st)))
    }
    fn load_byte(&mut self, st: &State, addr: u64) -> Result<E, MemErr> {
        let o = st.mem.check(addr, 1)?;
        let off = addr & 0xffff_ffff;
        let e = o.sym_at(off);
        if e != 0 {
            return Ok(e);
        }
        let b = o.bytes[off as usize];
        Ok(self.a.konst(b as u128, 8))
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u16) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        let off = addr & 0xffff_ffff;
        let o = match st.mem.check(addr, n) {
            Ok(o) => o,
            Err(e) => return Err(self.merr(st, e)),
        };
        if !o.has_sym(off, n) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | o.bytes[(off + i) as usize] as u128;
            }
            return Ok(Val::C(v & mw(w)));
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let s = o.sym_at(off + i);
            let x = if s != 0 { s } else { self.a.konst(o.bytes[(off + i) as usize] as u128, 8) };
            acc = Some(match acc {
                None => x,
                Some(l) => self.a.concat(x, l),
            });
        }
        let mut e = acc.unwrap();
        if self.a.w(e) > w {
            e = self.a.extract(e, 0, w);
        }
        let v = self.v(e);
        Ok(self.res(st, v))
    }
    fn load(&mut self, st: &mut State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr => self.load_int(st, addr, 64),
            Ty::Vec(n, et) if matches!(**et, Ty::Int(w) if w % 8 != 0) => {
                let w = et.width();
                let bits = self.load_int(st, addr, (*n as u16) * w)?;
                let mut out = vec![];
                for i in 0..*n {
                    out.push(self.extr(&bits, *n as u16 * w, i as u16 * w, w));
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            _ => {
                let mut out = vec![];
                for i in 0..t.nelem() {
                    let o = t.field_off(i);
                    out.push(self.load(st, addr.wrapping_add(o), t.elem(i))?);
                }
                Ok(Val::Agg(Rc::new(out)))
            }
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr => {
                let w = t.width();
                let n = ((w + 7) / 8) as u64;
                let off = addr & 0xffff_ffff;
                match v {
                    Val::C(k) => {
                        let b = k.to_le_bytes();
                        match st.mem.check_mut(addr, n) {
                            Ok(o) => o.write(off, &b[..n as usize]),
                            Err(e) => return Err(self.merr(st, e)),
                        }
                    }
                    Val::S(e) => {
                        let mut e = *e;
                        if w % 8 != 0 {
                            e = self.a.zext(e, (n * 8) as u16);
                        }
                        let mut parts = vec![];
                        for i in 0..n {
                            parts.push(self.a.extract(e, (i * 8) as u16, 8));
                        }
                        self.store_exprs(st, addr, &parts)?;
                    }
                    Val::Agg(_) => return Err(Stop::Error("store agg as int".into())),
                }
                Ok(())
            }
            Ty::Vec(n, et) if matches!(**et, Ty::Int(w) if w % 8 != 0) => {
                let w = et.width();
                let bits = self.pack(v, w)?;
                self.store(st, addr, &Ty::Int(*n as u16 * w), &bits)
            }
            _ => {
                if let Val::Agg(vs) = v {
                    for i in 0..t.nelem() {
                        self.store(st, addr.wrapping_add(t.field_off(i)), t.elem(i), &vs[i as usize])?;
                    }
                    Ok(())
                } else {
                    Err(Stop::Error("store scalar as agg".into()))
                }
            }
        }
    }
    fn store_exprs(&mut self, st: &mut State, addr: u64, parts: &[E]) -> R<()> {
        let off = addr & 0xffff_ffff;
        if let Err(e) = st.mem.check_mut(addr, parts.len() as u64) {
            return Err(self.merr(st, e));
        }
        let o = st.mem.check_mut(addr, parts.len() as u64).unwrap();
        for (i, &p) in parts.iter().enumerate() {
            let i = i as u64;
            match self.a.as_const(p) {
                Some(k) => o.write(off + i, &[k as u8]),
                None => o.set_sym(off + i, p),
            }
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, dof) = (s & 0xffff_ffff, d & 0xffff_ffff);
        let (bytes, sym) = match st.mem.check(s, n) {
            Ok(o) => {
                let b = o.bytes[so as usize..(so + n) as usize].to_vec();
                let y = if o.has_sym(so, n) { Some(o.sym.as_ref().unwrap()[so as usize..(so + n) as usize].to_vec()) } else { None };
                (b, y)
            }
            Err(e) => return Err(self.merr(st, e)),
        };
        match st.mem.check_mut(d, n) {
            Ok(o) => {
                o.write(dof, &bytes);
                if let Some(y) = sym {
                    let sz = o.size as usize;
                    let v = o.sym.get_or_insert_with(|| Rc::new(vec![0; sz]));
                    Rc::make_mut(v)[dof as usize..(dof + n) as usize].copy_from_slice(&y);
                }
                Ok(())
            }
            Err(e) => Err(self.merr(st, e)),
        }
    }
    fn pack(&mut self, v: &Val, w: u16) -> R<Val> {
        // little-endian lanes to one integer
        if let Val::Agg(vs) = v {
            if vs.iter().all(|x| matches!(x, Val::C(_))) {
                let mut r = 0u128;
                if vs.len() * w as usize > 128 {
                    return Err(Stop::Error("pack >128".into()));
                }
                for x in vs.iter().rev() {
                    if let Val::C(k) = x {
                        r = if w >= 128 { *k } else { r << w | k };
                    }
                }
                return Ok(Val::C(r));
            }
            let mut acc: Option<E> = None;
            for x in vs.iter() {
                let e = self.e(x, w);
                acc = Some(match acc {
                    None => e,
                    Some(l) => self.a.concat(e, l),
                });
            }
            let e = acc.unwrap();
            return Ok(self.v(e));
        }
        Ok(v.clone())
    }
    fn extr(&mut self, v: &Val, _w: u16, lo: u16, w: u16) -> Val {
        match v {
            Val::C(k) => Val::C((k >> lo) & mw(w)),
            Val::S(e) => {
                let x = self.a.extract(*e, lo, w);
                self.v(x)
            }
            _ => panic!(),
        }
    }
    /// Address of an access: concrete, or (for reads of small constant tables) left symbolic.
    fn sym_load(&mut self, st: &mut State, p: &Val, t: &Ty) -> R<Val> {
        let e = match p {
            Val::C(a) => return self.load(st, *a as u64, t),
            Val::S(e) => *e,
            _ => return Err(Stop::Error("agg pointer".into())),
        };
        if t.is_scalar() {
            // base + index
            let cur = self.a.eval(e, &st.model) as u64;
            let base = cur >> 32 << 32;
            let n = t.size();
            if let Some(o) = st.mem.obj(base) {
                let o = o.clone();
                if !o.freed && o.ro && o.size <= self.lim.mux_limit && !o.has_sym(0, o.size) && n <= 8 && o.size >= n {
                    let bc = self.a.konst(base as u128, 64);
                    let off = self.a.bin(Op::Sub, e, bc);
                    let last = self.a.konst((o.size - n) as u128, 64);
                    let inb = self.a.bin(Op::Ule, off, last);
                    let oob = self.a.not(inb);
                    if let Some(mo) = self.sat(st, oob)? {
                        let mut ost = st.clone();
                        ost.model = mo;
                        self.assert_in(&mut ost, oob);
                        self.st.forks += 1;
                        self.push_work(ost);
                    }
                    self.assert_in(st, inb);
                    // narrow the index
                    let mut stride = 1u64;
                    let mut idx = off;
                    // off = concat(x, 0_k)  => stride 2^k
                    for k in [4u16, 3, 2, 1] {
                        let low = self.a.extract(off, 0, k);
                        if self.a.as_const(low) == Some(0) {
                            stride = 1 << k;
                            idx = self.a.extract(off, k, 64 - k);
                            break;
                        }
                    }
                    let w = t.width();
                    let cnt = (o.size - n) / stride + 1;
                    let mut vals = vec![];
                    for i in 0..cnt {
                        let mut v = 0u128;
                        for j in (0..n).rev() {
                            v = v << 8 | o.bytes[(i * stride + j) as usize] as u128;
                        }
                        vals.push(v & mw(w));
                    }
                    // pointer tables must not become symbolic pointers
                    if *t == Ty::Ptr {
                        let a = self.concretize(st, p, 64)? as u64;
                        return self.load(st, a, t);
                    }
                    // shrink the index width
                    let mut iw = 1;
                    while (1u64 << iw) < cnt {
                        iw += 1;
                    }
                    let iw = (iw + 1).min(self.a.w(idx));
                    let idx = self.a.extract(idx, 0, iw);
                    let r = self.a.table(vals, w, idx);
                    let v = self.v(r);
                    return Ok(self.res(st, v));
                }
            }
        }
        let a = self.concretize(st, p, 64)? as u64;
        self.load(st, a, t)
    }

    fn site(&self, st: &State) -> String {
        let mut out = vec![];
        for fr in st.frames.iter().rev() {
            let n = &self.m.fns[fr.f.id as usize].pretty;
            out.push(n.clone());
            if n.contains("sshcerts::") && !n.starts_with("core::") {
                break;
            }
            if out.len() >= 6 {
                break;
            }
        }
        out.join(" < ")
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(24).map(|f| self.m.fns[f.f.id as usize].pretty.clone()).collect()
    }

    fn str_at(&self, st: &State, p: u64, n: u64) -> String {
        match st.mem.read_bytes(p, n) {
            Ok(b) => String::from_utf8_lossy(&b).into_owned(),
            Err(_) => "?".into(),
        }
    }

    // ---------- hooks ----------
    fn hook(&mut self, f: u32) -> Hook {
        if let Some(h) = self.hooks[f as usize] {
            return h;
        }
        let h = self.find_hook(f);
        self.hooks[f as usize] = Some(h);
        h
    }
    fn find_hook(&self, f: u32) -> Hook {
        let fi = &self.m.fns[f as usize];
        let s = fi.sym.as_str();
        let p = fi.pretty.as_str();
        if s.starts_with("llvm.") {
            let t = |x: &str| s.starts_with(x);
            let i = if t("llvm.memcpy") || t("llvm.memmove") {
                In::Memcpy
            } else if t("llvm.memset") {
                In::Memset
            } else if t("llvm.umin") {
                In::Umin
            } else if t("llvm.umax") {
                In::Umax
            } else if t("llvm.smin") {
                In::Smin
            } else if t("llvm.smax") {
                In::Smax
            } else if t("llvm.uadd.with") {
                In::UaddO
            } else if t("llvm.usub.with") {
                In::UsubO
            } else if t("llvm.umul.with") {
                In::UmulO
            } else if t("llvm.sadd.with") {
                In::SaddO
            } else if t("llvm.ssub.with") {
                In::SsubO
            } else if t("llvm.smul.with") {
                In::SmulO
            } else if t("llvm.uadd.sat") {
                In::UaddSat
            } else if t("llvm.usub.sat") {
                In::UsubSat
            } else if t("llvm.sadd.sat") {
                In::SaddSat
            } else if t("llvm.ssub.sat") {
                In::SsubSat
            } else if t("llvm.ushl.sat") {
                In::UshlSat
            } else if t("llvm.bswap") {
                In::Bswap
            } else if t("llvm.bitreverse") {
                In::Bitrev
            } else if t("llvm.is.constant") {
                In::IsConst
            } else if t("llvm.ctlz") {
                In::Ctlz
            } else if t("llvm.cttz") {
                In::Cttz
            } else if t("llvm.ctpop") {
                In::Ctpop
            } else if t("llvm.abs") {
                In::Abs
            } else if t("llvm.scmp") {
                In::Scmp
            } else if t("llvm.ucmp") {
                In::Ucmp
            } else if t("llvm.fshl") {
                In::Fshl
            } else if t("llvm.fshr") {
                In::Fshr
            } else if t("llvm.expect") {
                In::Expect
            } else if t("llvm.threadlocal.address") {
                In::Tls
            } else if t("llvm.trap") || t("llvm.ubsantrap") || t("llvm.debugtrap") {
                In::Trap
            } else if t("llvm.vector.reduce.or") {
                In::RedOr
            } else if t("llvm.vector.reduce.and") {
                In::RedAnd
            } else if t("llvm.vector.reduce.add") {
                In::RedAdd
            } else if t("llvm.x86.subborrow") {
                In::Sbb
            } else if t("llvm.x86.addcarry") {
                In::Adc
            } else if t("llvm.objectsize") {
                In::ObjSize
            } else {
                return Hook::Unknown;
            };
            return Hook::Intr(i);
        }
        if matches!(s, "open64" | "read" | "lseek64" | "statx" | "close") && self.params.get("fs") == Some(&1) {
            if let Some(&g) = self.m.fn_by_name.get(&format!("vr_{}", s)) {
                return Hook::StandIn(g);
            }
        }
        let ext = match s {
            "malloc" => Some(Ex::Malloc),
            "calloc" => Some(Ex::Calloc),
            "realloc" => Some(Ex::Realloc),
            "free" => Some(Ex::Free),
            "posix_memalign" => Some(Ex::PosixMemalign),
            "memcmp" => Some(Ex::Memcmp),
            "bcmp" => Some(Ex::Bcmp),
            "strlen" => Some(Ex::Strlen),
            "memchr" => Some(Ex::Memchr),
            "getenv" | "getcwd" | "pthread_getspecific" | "dlsym" => Some(Ex::Getenv),
            "close" | "munmap" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_attr_setguardsize" | "pthread_detach" | "pthread_setname_np"
            | "sigaltstack" => Some(Ex::Zero),
            "sched_yield" => Some(Ex::Zero),
            "pthread_create" => Some(Ex::PthreadCreate),
            "pthread_key_create" => Some(Ex::PthreadKey),
            "pthread_join" => Some(Ex::PthreadJoin),
            "pthread_self" => Some(Ex::PthreadSelf),
            "open64" | "open" => Some(Ex::Open),
            "stat64" | "fstat64" | "lstat64" | "statx" | "readlink" | "poll" | "lseek64" | "mmap64" => Some(Ex::Minus1),
            "read" => Some(Ex::Read),
            "__errno_location" => Some(Ex::Errno),
            "write" | "writev" => Some(Ex::Write),
            "sysconf" => Some(Ex::Sysconf),
            "syscall" | "getrandom" => Some(Ex::Syscall),
            "clock_gettime" => Some(Ex::ClockGettime),
            "sym_bytes" => Some(Ex::SymBytes),
            "sym_assume" => Some(Ex::SymAssume),
            "sym_check" => Some(Ex::SymCheck),
            "sym_cover" => Some(Ex::SymCover),
            "sym_param" => Some(Ex::SymParam),
            "sym_note" => Some(Ex::SymNote),
            "sym_concretize" => Some(Ex::SymConcretize),
            "sym_secret" => Some(Ex::SymSecret),
            "sym_leak" => Some(Ex::SymLeak),
            "sym_debug" => Some(Ex::SymDebug),
            _ => None,
        };
        if let Some(x) = ext {
            return Hook::Ext(x);
        }
        if s == "abort" || s == "exit" || s == "_exit" {
            return Hook::Panic;
        }
        if p.starts_with("core::panicking::")
            || p.starts_with("std::panicking::")
            || p.starts_with("std::process::abort")
            || p.starts_with("std::rt::")
            || p.contains("rust_begin_unwind")
            || p.starts_with("core::result::unwrap_failed")
            || p.starts_with("core::option::unwrap_failed")
            || p.starts_with("core::option::expect_failed")
            || p.starts_with("core::slice::index::slice_") && p.contains("fail")
            || p.starts_with("core::str::slice_error_fail")
            || p.starts_with("alloc::alloc::handle_alloc_error")
            || p.starts_with("alloc::raw_vec::capacity_overflow")
        {
            return Hook::Panic;
        }
        if p.contains("BuildHasher>::hash_one") {
            return Hook::Const0;
        }
        if p == "core::str::converts::from_utf8" {
            return Hook::Utf8;
        }
        if p == "core::slice::memchr::memchr_aligned" {
            return Hook::Memchr;
        }
        if p == "chrono::offset::local::inner::offset" {
            return Hook::LocalZone;
        }
        if fi.body.is_some() {
            Hook::Interp
        } else {
            Hook::Unknown
        }
    }

    fn panic_msg(&self, st: &State, f: u32, args: &[Val]) -> String {
        // Location is the last pointer argument of most panic entry points
        let mut loc = String::new();
        if let Some(Val::C(p)) = args.last() {
            let p = *p as u64;
            if let (Ok(fp), Ok(l)) = (st.mem.read_bytes(p, 8), st.mem.read_bytes(p.wrapping_add(8), 16)) {
                let fp = u64::from_le_bytes(fp.try_into().unwrap());
                let n = u64::from_le_bytes(l[..8].try_into().unwrap());
                let line = u32::from_le_bytes(l[8..12].try_into().unwrap());
                if n < 300 {
                    let fname = self.str_at(st, fp, n);
                    loc = format!(" at {}:{}", fname, line);
                }
            }
        }
        let mut msg = String::new();
        if let (Some(Val::C(p)), Some(Val::C(n))) = (args.get(0), args.get(1)) {
            if *n < 200 && *n > 0 {
                if let Ok(b) = st.mem.read_bytes(*p as u64, *n as u64) {
                    if b.iter().all(|c| *c >= 32 && *c < 127) {
                        msg = format!(" \"{}\"", String::from_utf8_lossy(&b));
                    }
                }
            }
        }
        let short = self.m.fns[f as usize].pretty.clone();
        format!("panic {}{}{} in {}", short, msg, loc, self.site(st))
    }

    // ---------- arithmetic ----------
    fn bin(&mut self, st: &mut State, op: BOp, w: u16, x: &Val, y: &Val) -> R<Val> {
        let o = match op {
            BOp::Add => Op::Add,
            BOp::Sub => Op::Sub,
            BOp::Mul => Op::Mul,
            BOp::UDiv => Op::UDiv,
            BOp::SDiv => Op::SDiv,
            BOp::URem => Op::URem,
            BOp::SRem => Op::SRem,
            BOp::And => Op::And,
            BOp::Or => Op::Or,
            BOp::Xor => Op::Xor,
            BOp::Shl => Op::Shl,
            BOp::LShr => Op::LShr,
            BOp::AShr => Op::AShr,
        };
        if let (Val::C(p), Val::C(q)) = (x, y) {
            if matches!(op, BOp::UDiv | BOp::SDiv | BOp::URem | BOp::SRem) && *q == 0 {
                return Err(Stop::Violation(format!("division by zero in {}", self.site(st))));
            }
            return Ok(Val::C(ev_bin(o, *p, *q, w, w)));
        }
        let a = self.e(x, w);
        let b = self.e(y, w);
        let r = self.a.bin(o, a, b);
        let v = self.v(r);
        Ok(v)
    }
    fn icmp(&mut self, p: Pred, w: u16, x: &Val, y: &Val) -> Val {
        let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (x, y) = if swap { (y, x) } else { (x, y) };
        if let (Val::C(p), Val::C(q)) = (x, y) {
            return Val::C(ev_bin(op, *p, *q, w, w) ^ neg as u128);
        }
        let a = self.e(x, w);
        let b = self.e(y, w);
        let mut r = self.a.bin(op, a, b);
        if neg {
            r = self.a.not(r);
        }
        self.v(r)
    }
    fn cast(&mut self, k: Cast, from: u16, to: u16, x: &Val) -> Val {
        match x {
            Val::C(v) => match k {
                Cast::Trunc => Val::C(v & mw(to)),
                Cast::ZExt | Cast::Bit => Val::C(*v),
                Cast::SExt => Val::C(sext(*v, from) as u128 & mw(to)),
            },
            Val::S(e) => {
                let r = match k {
                    Cast::Trunc => self.a.extract(*e, 0, to),
                    Cast::ZExt => self.a.zext(*e, to),
                    Cast::SExt => self.a.sext(*e, to),
                    Cast::Bit => *e,
                };
                self.v(r)
            }
            _ => panic!("cast agg"),
        }
    }
    fn ite(&mut self, cnd: E, w: u16, x: &Val, y: &Val) -> Val {
        let a = self.e(x, w);
        let b = self.e(y, w);
        let r = self.a.ite(cnd, a, b);
        self.v(r)
    }

    fn jump(&mut self, st: &mut State, target: u32) {
        let fr = st.frames.last().unwrap();
        let prev = fr.block;
        let f = fr.f.clone();
        let blk = &f.blocks[target as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (dst, inc, _) in &blk.phis {
                let o = inc.iter().find(|(b, _)| *b == prev).map(|(_, o)| o).expect("phi pred");
                let v = self.op(st, o);
                vals.push((*dst, v));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.block = target;
        fr.ip = 0;
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.mem.stack.truncate(fr.stack_base);
        if st.frames.is_empty() {
            if st.mem.cur == 0 {
                return Err(Stop::Done);
            }
            let cur = st.mem.cur as usize;
            st.threads[cur].status = TStat::Dead;
            if let Some(j) = st.threads[cur].joiner.take() {
                st.threads[j].status = TStat::Ready;
            }
            st.switch = true;
            return Ok(());
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        match fr.normal {
            Some(b) => self.jump(st, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        Ok(())
    }

    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) {
        if let (Some(d), Some(v)) = (dst, v) {
            Self::set(st, d, v);
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
    }

    /// Execute until the frame depth drops to `stop_depth` (0: whole path).
    fn run_path(&mut self, st: &mut State, stop_depth: usize) -> Stop {
        let mut local = 0u64;
        loop {
            if st.frames.len() <= stop_depth && !st.switch {
                return Stop::Done;
            }
            local += 1;
            st.steps += 1;
            if local & 0xfff == 0 {
                self.st.steps += 0x1000;
                if Instant::now() > self.lim.deadline {
                    return Stop::Timeout;
                }
                if st.steps > self.lim.max_steps {
                    return Stop::Error("step limit".into());
                }
            }
            match self.step(st) {
                Ok(()) => {
                    if st.switch {
                        if let Err(s) = self.switch_thread(st) {
                            return s;
                        }
                    }
                }
                Err(s) => {
                    self.st.steps += local & 0xfff;
                    return s;
                }
            }
        }
    }

    /// Hand over to the next thread that can run.
    fn switch_thread(&mut self, st: &mut State) -> R<()> {
        st.switch = false;
        let n = st.threads.len().max(1);
        let cur = st.mem.cur as usize;
        if st.threads.is_empty() {
            return Err(Stop::Violation("deadlock: the only thread waits forever".into()));
        }
        for k in 1..=n {
            let t = (cur + k) % n;
            if st.threads[t].status == TStat::Ready {
                if t != cur {
                    st.threads[cur].frames = std::mem::take(&mut st.frames);
                    st.frames = std::mem::take(&mut st.threads[t].frames);
                    st.mem.switch(t as u64);
                }
                return Ok(());
            }
        }
        if st.frames.is_empty() {
            st.frames = std::mem::take(&mut st.threads[0].frames);
            st.mem.switch(0);
        }
        Err(Stop::Violation("deadlock: every thread waits forever".into()))
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, b, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.block, fr.ip)
        };
        if self.prof_on {
            *self.prof.entry(f.id).or_insert(0) += 1;
        }
        let ins = &f.blocks[b as usize].insts[ip as usize];
        if self.trace {
            eprintln!("[{}] {}:{} {:?}", st.frames.len(), self.m.fns[f.id as usize].pretty, f.blocks[b as usize].name, ins);
        }
        match ins {
            Inst::Bin(o, t, d, x, y) => {
                let x = self.op(st, x);
                let y = self.op(st, y);
                let r = match t {
                    Ty::Vec(..) => {
                        let w = t.elem(0).width();
                        let (xs, ys) = lanes2(&x, &y);
                        let mut out = vec![];
                        for i in 0..xs.len() {
                            out.push(self.bin(st, *o, w, &xs[i], &ys[i])?);
                        }
                        Val::Agg(Rc::new(out))
                    }
                    _ => self.bin(st, *o, t.width(), &x, &y)?,
                };
                Self::set(st, *d, r);
            }
            Inst::ICmp(p, t, d, x, y) => {
                let x = self.op(st, x);
                let y = self.op(st, y);
                let r = match t {
                    Ty::Vec(..) => {
                        let w = t.elem(0).width();
                        let (xs, ys) = lanes2(&x, &y);
                        let out = (0..xs.len()).map(|i| self.icmp(*p, w, &xs[i], &ys[i])).collect();
                        Val::Agg(Rc::new(out))
                    }
                    _ => self.icmp(*p, t.width(), &x, &y),
                };
                Self::set(st, *d, r);
            }
            Inst::Cast(k, t, t2, d, x) => {
                let x = self.op(st, x);
                let r = if *k == Cast::Bit && (matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) {
                    let bits = match t {
                        Ty::Vec(..) => self.pack(&x, t.elem(0).width())?,
                        _ => x,
                    };
                    match t2 {
                        Ty::Vec(n, et) => {
                            let w = et.width();
                            let out = (0..*n).map(|i| self.extr(&bits, 0, i as u16 * w, w)).collect();
                            Val::Agg(Rc::new(out))
                        }
                        _ => bits,
                    }
                } else if let (Ty::Vec(_, a), Ty::Vec(_, b)) = (t, t2) {
                    let (fw, tw) = (a.width(), b.width());
                    if let Val::Agg(xs) = &x {
                        let out = xs.iter().map(|v| self.cast(*k, fw, tw, v)).collect();
                        Val::Agg(Rc::new(out))
                    } else {
                        panic!()
                    }
                } else {
                    self.cast(*k, t.width(), t2.width(), &x)
                };
                Self::set(st, *d, r);
            }
            Inst::Load(t, d, p) => {
                let p = self.op(st, p);
                let v = self.sym_load(st, &p, t)?;
                Self::set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let p = self.op(st, p);
                let a = self.concretize(st, &p, 64)? as u64;
                let v = self.op(st, v);
                self.store(st, a, t, &v)?;
            }
            Inst::Gep(d, base, off, dyns) => {
                let mut acc = self.op(st, base);
                if *off != 0 {
                    acc = self.bin(st, BOp::Add, 64, &acc, &c(*off as u64 as u128))?;
                }
                for (o, w, stride) in dyns {
                    let i = self.op(st, o);
                    let i = self.cast(if *w < 64 { Cast::SExt } else if *w > 64 { Cast::Trunc } else { Cast::Bit }, *w, 64, &i);
                    let s = self.bin(st, BOp::Mul, 64, &i, &c(*stride as u128))?;
                    acc = self.bin(st, BOp::Add, 64, &acc, &s)?;
                }
                Self::set(st, *d, acc);
            }
            Inst::Alloca(d, n) => {
                let a = st.mem.alloc_stack(*n);
                Self::set(st, *d, c(a as u128));
            }
            Inst::Copy(d, x, _) => {
                let v = self.op(st, x);
                Self::set(st, *d, v);
            }
            Inst::Br(t) => {
                self.jump(st, *t);
                return Ok(());
            }
            Inst::CondBr(x, t, e) => {
                let v = self.op(st, x);
                let b = match v {
                    Val::C(k) => k & 1 != 0,
                    Val::S(x) => self.branch(st, x)?,
                    _ => panic!(),
                };
                self.jump(st, if b { *t } else { *e });
                return Ok(());
            }
            Inst::Switch(x, w, d, cases) => {
                let v = self.op(st, x);
                match v {
                    Val::C(k) => {
                        let t = cases.iter().find(|(v, _)| *v & mw(*w) == k).map(|(_, b)| *b).unwrap_or(*d);
                        self.jump(st, t);
                    }
                    Val::S(e) => {
                        // group by target
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut any = self.a.f;
                        for (k, b) in cases {
                            let kc = self.a.konst(*k, *w);
                            let q = self.a.eq(e, kc);
                            any = self.a.or(any, q);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) {
                                g.1 = self.a.or(g.1, q);
                            } else {
                                groups.push((*b, q));
                            }
                        }
                        let dflt = self.a.not(any);
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == *d) {
                            g.1 = self.a.or(g.1, dflt);
                        } else {
                            // an unreachable default need not be explored
                            groups.push((*d, dflt));
                        }
                        // the current model picks one group; fork the rest
                        let n = groups.len();
                        let mut target = None;
                        for i in 0..n {
                            let (b, q) = groups[i];
                            if target.is_none() && self.a.eval(q, &st.model) != 0 {
                                target = Some((b, q));
                            } else if let Some(mo) = self.sat(st, q)? {
                                let mut o = st.clone();
                                o.model = mo;
                                o.forks += 1;
                                self.assert_in(&mut o, q);
                                self.st.forks += 1;
                                if self.prof_on {
                                    let s = format!("switch {}", self.site(st));
                                    *self.fork_sites.entry(s).or_insert(0) += 1;
                                }
                                self.jump(&mut o, b);
                                self.push_work(o);
                            }
                        }
                        let (b, q) = target.expect("switch target");
                        self.assert_in(st, q);
                        self.jump(st, b);
                    }
                    _ => panic!(),
                }
                return Ok(());
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((o, _)) => Some(self.op(st, o)),
                    None => None,
                };
                return self.ret(st, v);
            }
            Inst::Unreachable => {
                return Err(Stop::Violation(format!("reached unreachable in {}", self.site(st))));
            }
            Inst::Select(d, cnd, ct, x, y, t) => {
                let cv = self.op(st, cnd);
                let r = match (&cv, ct) {
                    (Val::C(k), _) => {
                        if k & 1 != 0 {
                            self.op(st, x)
                        } else {
                            self.op(st, y)
                        }
                    }
                    (Val::S(e), _) => {
                        let xv = self.op(st, x);
                        let yv = self.op(st, y);
                        match t {
                            Ty::Int(w) => self.ite(*e, *w, &xv, &yv),
                            _ => {
                                if self.branch(st, *e)? {
                                    xv
                                } else {
                                    yv
                                }
                            }
                        }
                    }
                    (Val::Agg(cs), _) => {
                        let xv = self.op(st, x);
                        let yv = self.op(st, y);
                        let (xs, ys) = lanes2(&xv, &yv);
                        let w = t.elem(0).width();
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            out.push(match &cs[i] {
                                Val::C(k) => {
                                    if k & 1 != 0 {
                                        xs[i].clone()
                                    } else {
                                        ys[i].clone()
                                    }
                                }
                                Val::S(e) => self.ite(*e, w, &xs[i], &ys[i]),
                                _ => panic!(),
                            });
                        }
                        Val::Agg(Rc::new(out))
                    }
                };
                Self::set(st, *d, r);
            }
            Inst::ExtractValue(d, x, ix) => {
                let mut v = self.op(st, x);
                for i in ix {
                    v = match &v {
                        Val::Agg(a) => a[*i as usize].clone(),
                        _ => return Err(Stop::Error("extractvalue of scalar".into())),
                    };
                }
                let v = self.res(st, v);
                Self::set(st, *d, v);
            }
            Inst::InsertValue(d, x, t, y, ix) => {
                let v = self.op(st, x);
                let y = self.op(st, y);
                let r = insert(v, t, ix, y);
                Self::set(st, *d, r);
            }
            Inst::ExtractElement(d, x, _, i) => {
                let v = self.op(st, x);
                let i = self.op(st, i);
                let i = self.concretize(st, &i, 64)?;
                let r = match &v {
                    Val::Agg(a) => a[i as usize].clone(),
                    _ => panic!(),
                };
                Self::set(st, *d, r);
            }
            Inst::InsertElement(d, x, _, y, i) => {
                let v = self.op(st, x);
                let y = self.op(st, y);
                let i = self.op(st, i);
                let i = self.concretize(st, &i, 64)?;
                let r = match v {
                    Val::Agg(mut a) => {
                        Rc::make_mut(&mut a)[i as usize] = y;
                        Val::Agg(a)
                    }
                    _ => panic!(),
                };
                Self::set(st, *d, r);
            }
            Inst::Shuffle(d, x, y, t, idx) => {
                let x = self.op(st, x);
                let y = self.op(st, y);
                let (xs, ys) = lanes2(&x, &y);
                let n = t.nelem() as usize;
                let out = idx.iter().map(|i| if (*i as usize) < n { xs[*i as usize].clone() } else { ys[*i as usize - n].clone() }).collect();
                Self::set(st, *d, Val::Agg(Rc::new(out)));
            }
            Inst::Rmw(o, t, d, p, v) => {
                let p = self.op(st, p);
                let a = self.concretize(st, &p, 64)? as u64;
                let v = self.op(st, v);
                let old = self.load(st, a, t)?;
                let w = t.width();
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, BOp::Add, w, &old, &v)?,
                    "sub" => self.bin(st, BOp::Sub, w, &old, &v)?,
                    "and" => self.bin(st, BOp::And, w, &old, &v)?,
                    "or" => self.bin(st, BOp::Or, w, &old, &v)?,
                    "xor" => self.bin(st, BOp::Xor, w, &old, &v)?,
                    x => return Err(Stop::Error(format!("atomicrmw {}", x))),
                };
                self.store(st, a, t, &new)?;
                if *d != u32::MAX {
                    Self::set(st, *d, old);
                }
            }
            Inst::CmpXchg(t, d, p, x, y) => {
                let p = self.op(st, p);
                let a = self.concretize(st, &p, 64)? as u64;
                let x = self.op(st, x);
                let y = self.op(st, y);
                let old = self.load(st, a, t)?;
                let eq = self.icmp(Pred::Eq, t.width(), &old, &x);
                let b = match eq {
                    Val::C(k) => k != 0,
                    Val::S(e) => self.branch(st, e)?,
                    _ => panic!(),
                };
                if b {
                    self.store(st, a, t, &y)?;
                }
                if *d != u32::MAX {
                    Self::set(st, *d, Val::Agg(Rc::new(vec![old, c(b as u128)])));
                }
            }
            Inst::Nop => {}
            Inst::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction {} in {}", s, self.site(st)))),
            Inst::Call { dst, ret, callee, args, normal } => {
                let fid = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Asm(text) if text.starts_with("div ") && args.len() == 3 => {
                        // dx, ax = divmod(dx:ax, r)
                        let v: Vec<Val> = args.iter().map(|(o, _)| self.op(st, o)).collect();
                        let (r, hi, lo) = (self.e(&v[0], 64), self.e(&v[1], 64), self.e(&v[2], 64));
                        let ok = self.a.bin(Op::Ult, hi, r);
                        if !self.branch(st, ok)? {
                            return Err(Stop::Violation(format!("division overflow in {}", self.site(st))));
                        }
                        let (q, m) = if self.a.as_const(hi) == Some(0) {
                            (self.a.bin(Op::UDiv, lo, r), self.a.bin(Op::URem, lo, r))
                        } else {
                            let n = self.a.concat(hi, lo);
                            let d = self.a.zext(r, 128);
                            let q = self.a.bin(Op::UDiv, n, d);
                            let m = self.a.bin(Op::URem, n, d);
                            (self.a.extract(q, 0, 64), self.a.extract(m, 0, 64))
                        };
                        let (q, m) = (self.v(q), self.v(m));
                        self.finish_call(st, *dst, *normal, Some(Val::Agg(Rc::new(vec![m, q]))));
                        return Ok(());
                    }
                    Callee::Asm(text) if !text.is_empty() => return Err(Stop::Error(format!("inline assembly {}", text))),
                    Callee::Asm(_) => {
                        // a compiler barrier
                        self.finish_call(st, *dst, *normal, Some(c(0)));
                        return Ok(());
                    }
                    Callee::Ind(o) => {
                        let p = self.op(st, o);
                        let a = self.concretize(st, &p, 64)? as u64;
                        if a < ir::FN_BASE || (a - ir::FN_BASE) / 16 >= self.m.fns.len() as u64 {
                            return Err(Stop::Violation(format!("call through bad pointer {:#x} in {}", a, self.site(st))));
                        }
                        ((a - ir::FN_BASE) / 16) as u32
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (o, _) in args {
                    av.push(self.op(st, o));
                }
                match self.hook(fid) {
                    Hook::Interp => return self.call(st, fid, av, *dst, *normal),
                    Hook::StandIn(g) => return self.call(st, g, av, *dst, *normal),
                    Hook::Panic => return Err(Stop::Panic(self.panic_msg(st, fid, &av))),
                    Hook::Const0 => {
                        self.finish_call(st, *dst, *normal, Some(c(0)));
                        return Ok(());
                    }
                    Hook::Memchr => {
                        if let Some(v) = self.memchr(st, &av)? {
                            self.finish_call(st, *dst, *normal, Some(v));
                            return Ok(());
                        }
                        return self.call(st, fid, av, *dst, *normal);
                    }
                    // what the system's time zone says about a clock time: parameters tz (0 one offset, 1 two, 2 none),
                    // o1 and o2 (seconds east of UTC, plus 100000)
                    Hook::LocalZone => {
                        let out = self.concretize(st, &av[0], 64)? as u64;
                        let local = av.len() < 3 || self.concretize(st, &av[2], 1)? & 1 == 1;
                        let get = |k: &str| self.params.get(k).map(|v| (*v as i64 - 100_000) as i32 as u32).unwrap_or(0);
                        let (o1, o2) = (get("o1"), get("o2"));
                        let tz = if local { self.params.get("tz").copied().unwrap_or(0) as u32 } else { 0 };
                        for (i, w) in [tz, o1, o2].iter().enumerate() {
                            self.store(st, out + 4 * i as u64, &Ty::Int(32), &c(*w as u128))?;
                        }
                        self.finish_call(st, *dst, *normal, None);
                        return Ok(());
                    }
                    Hook::Utf8 => {
                        if self.utf8(st, &av)? {
                            self.finish_call(st, *dst, *normal, None);
                            return Ok(());
                        }
                        return self.call(st, fid, av, *dst, *normal);
                    }
                    Hook::Intr(i) => {
                        let v = self.intrinsic(st, i, ret, args, av)?;
                        self.finish_call(st, *dst, *normal, v);
                        return Ok(());
                    }
                    Hook::Ext(Ex::Syscall) if matches!(av.first(), Some(Val::C(332))) && self.params.get("fs") == Some(&1) => {
                        let g = self.m.fn_by_name["vr_statx"];
                        return self.call(st, g, av[1..].to_vec(), *dst, *normal);
                    }
                    Hook::Ext(x) => {
                        let v = self.external(st, fid, x, av)?;
                        self.finish_call(st, *dst, *normal, v);
                        return Ok(());
                    }
                    Hook::Unknown => return Err(Stop::Error(format!("call to unmodelled external {}", self.m.fns[fid as usize].sym))),
                }
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn call(&mut self, st: &mut State, fid: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        let f = match self.m.func(fid) {
            Some(f) => f,
            None => return Err(Stop::Error(format!("no body {}", self.m.fns[fid as usize].sym))),
        };
        if st.frames.len() > 2000 {
            return Err(Stop::Violation("stack overflow (recursion deeper than 2000 frames)".into()));
        }
        self.funcs_used.insert(fid);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            regs[*p as usize] = args[i].clone();
        }
        let sb = st.mem.stack.len();
        let depth = st.frames.len();
        if depth as u64 > self.st.max_depth {
            self.st.max_depth = depth as u64;
        }
        let merge = !self.merge_pats.is_empty() && self.is_merge(fid);
        st.frames.push(Frame { f, regs, block: 0, ip: 0, stack_base: sb, dst, normal });
        if merge {
            return self.merge_call(st, depth, dst);
        }
        Ok(())
    }
    fn is_merge(&mut self, fid: u32) -> bool {
        if let Some(&b) = self.merge_cache.get(&fid) {
            return b;
        }
        let p = &self.m.fns[fid as usize].pretty;
        let b = self.merge_pats.iter().any(|m| p.contains(m.as_str()));
        self.merge_cache.insert(fid, b);
        b
    }

    /// Explore the callee completely and merge the states in which it returns.
    fn merge_call(&mut self, st: &mut State, depth: usize, dst: Option<u32>) -> R<()> {
        let saved = std::mem::take(&mut self.work);
        let saved_kill = self.killed_in_sub;
        self.killed_in_sub = false;
        let base = st.clone();
        let mut done: Vec<State> = vec![];
        self.work.push(st.clone());
        let mut timeout = false;
        while let Some(mut s) = self.work.pop() {
            match self.run_path(&mut s, depth) {
                Stop::Done => done.push(s),
                Stop::Timeout => {
                    timeout = true;
                    break;
                }
                other => {
                    self.killed_in_sub = true;
                    self.path_end(s, other);
                }
            }
            if self.stop_all {
                timeout = true;
                break;
            }
        }
        self.work = saved;
        let killed = self.killed_in_sub;
        self.killed_in_sub = saved_kill || killed;
        if timeout {
            return Err(Stop::Timeout);
        }
        if done.is_empty() {
            return Err(Stop::Killed);
        }
        let merged = self.merge_states(&base, done, dst, killed);
        let mut it = merged.into_iter();
        let first = it.next().unwrap();
        for o in it {
            self.push_work(o);
        }
        *st = first;
        Ok(())
    }

    fn merge_states(&mut self, base: &State, done: Vec<State>, dst: Option<u32>, killed: bool) -> Vec<State> {
        if done.len() == 1 {
            return done;
        }
        // group by compatibility
        let mut groups: Vec<Vec<State>> = vec![];
        for s in done {
            let mut s = Some(s);
            for g in groups.iter_mut() {
                if self.compatible(&g[0], s.as_ref().unwrap(), dst) {
                    g.push(s.take().unwrap());
                    break;
                }
            }
            if let Some(s) = s {
                groups.push(vec![s]);
            }
        }
        let ng = groups.len();
        let mut out = vec![];
        for g in groups {
            if g.len() == 1 {
                out.extend(g);
                continue;
            }
            self.st.merges += 1;
            self.st.merged_states += g.len() as u64;
            let full = ng == 1 && !killed;
            out.push(self.merge_group(base, g, dst, full));
        }
        out
    }
    fn compatible(&mut self, a: &State, b: &State, dst: Option<u32>) -> bool {
        if !a.threads.is_empty() || !b.threads.is_empty() || a.frames.len() != b.frames.len() || a.covers != b.covers || a.notes.len() != b.notes.len() || a.model.len() != b.model.len() || a.rand_ctr != b.rand_ctr {
            return false;
        }
        let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        if fa.block != fb.block || fa.ip != fb.ip {
            return false;
        }
        if let Some(d) = dst {
            if !val_compat(&fa.regs[d as usize], &fb.regs[d as usize]) {
                return false;
            }
        }
        for (ta, tb) in [(&a.mem.glob, &b.mem.glob), (&a.mem.stack, &b.mem.stack), (&a.mem.heap, &b.mem.heap)] {
            if ta.len() != tb.len() {
                let (l, s) = if ta.len() > tb.len() { (ta, tb) } else { (tb, ta) };
                for i in s.len()..l.len() {
                    if !l.get(i).unwrap().freed {
                        return false;
                    }
                }
            }
            let n = ta.len().min(tb.len());
            for i in 0..n {
                if i % 32 == 0 && ta.same_chunk(tb, i / 32) {
                    continue;
                }
                let (x, y) = (ta.get(i).unwrap(), tb.get(i).unwrap());
                if Rc::ptr_eq(&x.bytes, &y.bytes) && x.freed == y.freed && sym_same(x, y) {
                    continue;
                }
                if x.freed != y.freed || x.size != y.size {
                    return false;
                }
                if x.freed {
                    continue;
                }
                // differing pointer words are not merged
                let nw = x.size / 8;
                for w in 0..nw {
                    let r = (w * 8) as usize..(w * 8 + 8) as usize;
                    if x.bytes[r.clone()] != y.bytes[r.clone()] {
                        let p = u64::from_le_bytes(x.bytes[r.clone()].try_into().unwrap());
                        let q = u64::from_le_bytes(y.bytes[r.clone()].try_into().unwrap());
                        if x.has_sym(w * 8, 8) || y.has_sym(w * 8, 8) {
                            continue;
                        }
                        if looks_ptr(p) || looks_ptr(q) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    }
    fn merge_group(&mut self, base: &State, g: Vec<State>, dst: Option<u32>, full: bool) -> State {
        // path conditions relative to the base
        let mut conds = vec![];
        for s in &g {
            let mut cnd = self.a.t;
            for &p in &s.pc[base.pc.len()..] {
                cnd = self.a.and(cnd, p);
            }
            for v in 0..base.dom.len() {
                if s.dom[v] != base.dom[v] {
                    let i = self.a.in_set(v as u32, s.dom[v]);
                    cnd = self.a.and(cnd, i);
                }
            }
            conds.push(cnd);
        }
        let mut r = g[0].clone();
        r.pc.truncate(base.pc.len());
        r.dom = base.dom.clone();
        r.dom.resize(g[0].dom.len(), FULL);
        r.multi = base.multi.clone();
        r.multi.resize(g[0].dom.len(), false);
        r.known = base.known.clone();
        for v in base.dom.len()..r.dom.len() {
            // variables created inside keep their own domains' union
            let mut m = [0u64; 4];
            for s in &g {
                m = mask_or(&m, &s.dom[v]);
            }
            r.dom[v] = m;
        }
        if !full {
            let mut any = self.a.f;
            for &x in &conds {
                any = self.a.or(any, x);
            }
            self.assert_in(&mut r, any);
        }
        // values
        if let Some(d) = dst {
            let mut v = g.last().unwrap().frames.last().unwrap().regs[d as usize].clone();
            for i in (0..g.len() - 1).rev() {
                let x = g[i].frames.last().unwrap().regs[d as usize].clone();
                let f = &g[i].frames.last().unwrap().f;
                let w = self.reg_width(f, d);
                v = self.merge_val(conds[i], &x, &v, w);
            }
            r.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        for i in 0..r.notes.len() {
            let mut v = g.last().unwrap().notes[i].clone();
            for k in (0..g.len() - 1).rev() {
                let x = g[k].notes[i].clone();
                v = self.merge_val(conds[k], &x, &v, Some(Ty::Int(64)));
            }
            r.notes[i] = v;
        }
        for which in 0..3 {
            let tabs: Vec<&Tab> = g
                .iter()
                .map(|s| match which {
                    0 => &s.mem.glob,
                    1 => &s.mem.stack,
                    _ => &s.mem.heap,
                })
                .collect();
            let maxlen = tabs.iter().map(|t| t.len()).max().unwrap();
            let minlen = tabs.iter().map(|t| t.len()).min().unwrap();
            let longest = tabs.iter().position(|t| t.len() == maxlen).unwrap();
            // extra (all freed) objects
            let mut extra = vec![];
            let rlen = tabs[0].len();
            for i in rlen..maxlen {
                extra.push(tabs[longest].get(i).unwrap().clone());
            }
            let mut updates: Vec<(usize, Obj)> = vec![];
            for i in 0..minlen {
                if i % 32 == 0 && tabs.iter().all(|t| tabs[0].same_chunk(t, i / 32)) {
                    continue;
                }
                let o0 = tabs[0].get(i).unwrap();
                if o0.freed || tabs.iter().all(|t| {
                    let o = t.get(i).unwrap();
                    Rc::ptr_eq(&o.bytes, &o0.bytes) && sym_same(o, o0)
                }) {
                    continue;
                }
                let mut no = o0.clone();
                let mut ch = false;
                for k in 0..o0.size {
                    let b0 = (o0.sym_at(k), o0.bytes[k as usize]);
                    let same = tabs.iter().all(|t| {
                        let o = t.get(i).unwrap();
                        let s = o.sym_at(k);
                        s == b0.0 && (s != 0 || o.bytes[k as usize] == b0.1)
                    });
                    if same {
                        continue;
                    }
                    ch = true;
                    let get = |o: &Obj, a: &mut Arena| -> E {
                        let s = o.sym_at(k);
                        if s != 0 {
                            s
                        } else {
                            a.konst(o.bytes[k as usize] as u128, 8)
                        }
                    };
                    let mut v = get(tabs.last().unwrap().get(i).unwrap(), &mut self.a);
                    for j in (0..g.len() - 1).rev() {
                        let x = get(tabs[j].get(i).unwrap(), &mut self.a);
                        v = self.a.ite(conds[j], x, v);
                    }
                    match self.a.as_const(v) {
                        Some(kk) => no.write(k, &[kk as u8]),
                        None => no.set_sym(k, v),
                    }
                }
                if ch {
                    updates.push((i, no));
                }
            }
            let rt = match which {
                0 => &mut r.mem.glob,
                1 => &mut r.mem.stack,
                _ => &mut r.mem.heap,
            };
            for o in extra {
                rt.push(o);
            }
            for (i, o) in updates {
                *rt.get_mut(i).unwrap() = o;
            }
        }
        r.steps = g.iter().map(|s| s.steps).max().unwrap();
        r
    }
    fn reg_width(&self, f: &Func, d: u32) -> Option<Ty> {
        for b in &f.blocks {
            for i in &b.insts {
                if let Inst::Call { dst: Some(x), ret, .. } = i {
                    if *x == d {
                        return Some(ret.clone());
                    }
                }
            }
        }
        None
    }
    fn merge_val(&mut self, cnd: E, x: &Val, y: &Val, t: Option<Ty>) -> Val {
        match (x, y) {
            (Val::Agg(a), Val::Agg(b)) => {
                let t = t.unwrap();
                let out = (0..a.len()).map(|i| self.merge_val(cnd, &a[i], &b[i], Some(t.elem(i as u64).clone()))).collect();
                Val::Agg(Rc::new(out))
            }
            (Val::C(a), Val::C(b)) if a == b => x.clone(),
            _ => {
                let w = match (&t, x, y) {
                    (Some(t), _, _) if t.width() > 0 => t.width(),
                    (_, Val::S(e), _) | (_, _, Val::S(e)) => self.a.w(*e),
                    _ => 64,
                };
                self.ite(cnd, w, x, y)
            }
        }
    }

    // ---------- summaries ----------
    /// from_utf8 on symbolic bytes: one fork on validity instead of one per byte class.
    /// core::slice::memchr, byte by byte (the library's word-at-a-time search gives the solver needless work)
    fn memchr(&mut self, st: &mut State, av: &[Val]) -> R<Option<Val>> {
        if av.len() != 3 {
            return Ok(None);
        }
        let p = self.concretize(st, &av[1], 64)? as u64;
        let n = self.concretize(st, &av[2], 64)? as u64;
        if n == 0 {
            return Ok(None);
        }
        if let Err(e) = st.mem.check(p, n) {
            return Err(self.merr(st, e));
        }
        let x = self.e(&av[0], 8);
        for i in 0..n {
            let e = self.load_byte(st, p + i).unwrap();
            let v = self.v(e);
            let v = self.res(st, v);
            let b = self.e(&v, 8);
            let q = self.a.bin(Op::Eq, b, x);
            if self.branch(st, q)? {
                return Ok(Some(Val::Agg(Rc::new(vec![c(1), c(i as u128)]))));
            }
        }
        Ok(Some(Val::Agg(Rc::new(vec![c(0), c(0)]))))
    }
    fn utf8(&mut self, st: &mut State, av: &[Val]) -> R<bool> {
        if av.len() != 3 {
            return Ok(false);
        }
        let n = self.concretize(st, &av[2], 64)? as u64;
        let p = self.concretize(st, &av[1], 64)? as u64;
        let out = self.concretize(st, &av[0], 64)? as u64;
        if n == 0 {
            return Ok(false);
        }
        match st.mem.check(p, n) {
            Ok(o) => {
                if !o.has_sym(p & 0xffff_ffff, n) {
                    return Ok(false);
                }
            }
            Err(e) => return Err(self.merr(st, e)),
        }
        let mut bytes = vec![];
        for i in 0..n {
            let e = self.load_byte(st, p + i).unwrap();
            let v = self.v(e);
            let v = self.res(st, v);
            bytes.push(self.e(&v, 8));
        }
        let valid = self.utf8_expr(&bytes);
        if self.branch(st, valid)? {
            self.store(st, out, &Ty::Int(64), &c(0))?;
            self.store(st, out + 8, &Ty::Int(64), &c(p as u128))?;
            self.store(st, out + 16, &Ty::Int(64), &c(n as u128))?;
        } else {
            self.store(st, out, &Ty::Int(64), &c(1))?;
            self.store(st, out + 8, &Ty::Int(64), &c(0))?;
            self.store(st, out + 16, &Ty::Int(64), &c(0x0101))?;
        }
        Ok(true)
    }
    fn rng_e(&mut self, b: E, lo: u8, hi: u8) -> E {
        let l = self.a.konst(lo as u128, 8);
        let h = self.a.konst(hi as u128, 8);
        let x = self.a.bin(Op::Ule, l, b);
        let y = self.a.bin(Op::Ule, b, h);
        self.a.and(x, y)
    }
    fn utf8_expr(&mut self, bytes: &[E]) -> E {
        // states: 0 ok, 1 need1, 2 need2, 3 need3, 4 after E0, 5 after ED, 6 after F0, 7 after F4
        let (t, f) = (self.a.t, self.a.f);
        let mut s = [t, f, f, f, f, f, f, f];
        for &b in bytes {
            let asc = self.rng_e(b, 0, 0x7f);
            let cont = self.rng_e(b, 0x80, 0xbf);
            let l2 = self.rng_e(b, 0xc2, 0xdf);
            let e0 = self.rng_e(b, 0xe0, 0xe0);
            let l3a = self.rng_e(b, 0xe1, 0xec);
            let l3b = self.rng_e(b, 0xee, 0xef);
            let l3 = self.a.or(l3a, l3b);
            let ed = self.rng_e(b, 0xed, 0xed);
            let f0 = self.rng_e(b, 0xf0, 0xf0);
            let l4 = self.rng_e(b, 0xf1, 0xf3);
            let f4 = self.rng_e(b, 0xf4, 0xf4);
            let a0 = self.rng_e(b, 0xa0, 0xbf);
            let b9f = self.rng_e(b, 0x80, 0x9f);
            let b90 = self.rng_e(b, 0x90, 0xbf);
            let b8f = self.rng_e(b, 0x80, 0x8f);
            let a = &mut self.a;
            let x = a.and(s[0], asc);
            let y = a.and(s[1], cont);
            let n0 = a.or(x, y);
            let x = a.and(s[0], l2);
            let y = a.and(s[2], cont);
            let z = a.and(s[4], a0);
            let u = a.and(s[5], b9f);
            let n1 = a.or(x, y);
            let n1 = a.or(n1, z);
            let n1 = a.or(n1, u);
            let x = a.and(s[0], l3);
            let y = a.and(s[3], cont);
            let z = a.and(s[6], b90);
            let u = a.and(s[7], b8f);
            let n2 = a.or(x, y);
            let n2 = a.or(n2, z);
            let n2 = a.or(n2, u);
            let n3 = a.and(s[0], l4);
            let n4 = a.and(s[0], e0);
            let n5 = a.and(s[0], ed);
            let n6 = a.and(s[0], f0);
            let n7 = a.and(s[0], f4);
            s = [n0, n1, n2, n3, n4, n5, n6, n7];
        }
        s[0]
    }

    fn intrinsic(&mut self, st: &mut State, i: In, ret: &Ty, args: &[(Opd, Ty)], av: Vec<Val>) -> R<Option<Val>> {
        // element-wise on vectors
        if let Ty::Vec(n, et) = ret {
            if !matches!(i, In::Memcpy | In::Memset) {
                let mut out = vec![];
                for k in 0..*n as usize {
                    let a: Vec<Val> = av
                        .iter()
                        .map(|v| match v {
                            Val::Agg(x) => x[k].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    let at: Vec<(Opd, Ty)> = args
                        .iter()
                        .map(|(o, t)| match t {
                            Ty::Vec(_, e) => (o.clone(), (**e).clone()),
                            _ => (o.clone(), t.clone()),
                        })
                        .collect();
                    out.push(self.intrinsic(st, i, et, &at, a)?.unwrap());
                }
                return Ok(Some(Val::Agg(Rc::new(out))));
            }
        }
        let w = args.get(0).map(|a| a.1.width()).unwrap_or(0);
        let r = match i {
            In::Memcpy => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.concretize(st, &av[0], 64)? as u64;
                let s = self.concretize(st, &av[1], 64)? as u64;
                self.memcpy(st, d, s, n)?;
                return Ok(None);
            }
            In::Memset => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.concretize(st, &av[0], 64)? as u64;
                match &av[1] {
                    Val::C(k) => match st.mem.check_mut(d, n) {
                        Ok(o) => o.write(d & 0xffff_ffff, &vec![*k as u8; n as usize]),
                        Err(e) => return Err(self.merr(st, e)),
                    },
                    Val::S(e) => {
                        let v = vec![*e; n as usize];
                        self.store_exprs(st, d, &v)?;
                    }
                    _ => panic!(),
                }
                return Ok(None);
            }
            In::Umin | In::Umax | In::Smin | In::Smax => {
                let p = match i {
                    In::Umin => Pred::Ult,
                    In::Umax => Pred::Ugt,
                    In::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                match self.icmp(p, w, &av[0], &av[1]) {
                    Val::C(k) => {
                        if k != 0 {
                            av[0].clone()
                        } else {
                            av[1].clone()
                        }
                    }
                    Val::S(e) => self.ite(e, w, &av[0], &av[1]),
                    _ => panic!(),
                }
            }
            In::UaddO | In::UsubO | In::UmulO | In::SaddO | In::SsubO | In::SmulO => {
                let (x, y) = (&av[0], &av[1]);
                if let (Val::C(p), Val::C(q)) = (x, y) {
                    let (p, q) = (*p, *q);
                    let m = mw(w);
                    let (r, o) = match i {
                        In::UaddO => {
                            let (s, ov) = p.overflowing_add(q);
                            (s & m, ov || s > m)
                        }
                        In::UsubO => (p.wrapping_sub(q) & m, p < q),
                        In::UmulO => {
                            let (s, ov) = p.overflowing_mul(q);
                            (s & m, ov || s > m)
                        }
                        _ => {
                            let (sp, sq) = (sext(p, w), sext(q, w));
                            let (s, ov) = match i {
                                In::SaddO => sp.overflowing_add(sq),
                                In::SsubO => sp.overflowing_sub(sq),
                                _ => sp.overflowing_mul(sq),
                            };
                            let t = s as u128 & m;
                            (t, ov || sext(t, w) != s)
                        }
                    };
                    Val::Agg(Rc::new(vec![c(r), c(o as u128)]))
                } else {
                    let a = self.e(x, w);
                    let b = self.e(y, w);
                    let (r, o) = match i {
                        In::UaddO => {
                            let r = self.a.bin(Op::Add, a, b);
                            let o = if w < 128 {
                                let za = self.a.zext(a, w + 1);
                                let zb = self.a.zext(b, w + 1);
                                let zs = self.a.bin(Op::Add, za, zb);
                                // overflow iff sum > max: rewrite as a > max - b for constants
                                if let Some(k) = self.a.as_const(b) {
                                    let lim = self.a.konst(mw(w) - k, w);
                                    self.a.bin(Op::Ult, lim, a)
                                } else if self.bits_hi(a) && self.bits_hi(b) {
                                    self.a.f
                                } else {
                                    self.a.extract(zs, w, 1)
                                }
                            } else {
                                self.a.bin(Op::Ult, r, a)
                            };
                            (r, o)
                        }
                        In::UsubO => {
                            let r = self.a.bin(Op::Sub, a, b);
                            let o = self.a.bin(Op::Ult, a, b);
                            (r, o)
                        }
                        In::UmulO => {
                            if w > 64 {
                                return Err(Stop::Error("symbolic 128-bit umul.with.overflow".into()));
                            }
                            let r = self.a.bin(Op::Mul, a, b);
                            let za = self.a.zext(a, 2 * w);
                            let zb = self.a.zext(b, 2 * w);
                            let z = self.a.bin(Op::Mul, za, zb);
                            let o = if let Some(k) = self.a.as_const(b) {
                                if k == 0 {
                                    self.a.f
                                } else {
                                    let lim = self.a.konst(mw(w) / k, w);
                                    self.a.bin(Op::Ult, lim, a)
                                }
                            } else {
                                let hi = self.a.extract(z, w, w);
                                let zero = self.a.konst(0, w);
                                let e = self.a.eq(hi, zero);
                                self.a.not(e)
                            };
                            (r, o)
                        }
                        In::SaddO | In::SsubO => {
                            if w >= 128 {
                                return Err(Stop::Error("symbolic 128-bit sadd".into()));
                            }
                            let op = if i == In::SaddO { Op::Add } else { Op::Sub };
                            let r = self.a.bin(op, a, b);
                            let za = self.a.sext(a, w + 1);
                            let zb = self.a.sext(b, w + 1);
                            let z = self.a.bin(op, za, zb);
                            let h1 = self.a.extract(z, w, 1);
                            let h0 = self.a.extract(z, w - 1, 1);
                            let o = self.a.bin(Op::Xor, h1, h0);
                            (r, o)
                        }
                        _ => {
                            if w > 64 {
                                return Err(Stop::Error("symbolic 128-bit smul".into()));
                            }
                            let r = self.a.bin(Op::Mul, a, b);
                            let za = self.a.sext(a, 2 * w);
                            let zb = self.a.sext(b, 2 * w);
                            let z = self.a.bin(Op::Mul, za, zb);
                            let back = self.a.sext(r, 2 * w);
                            let e = self.a.eq(z, back);
                            let o = self.a.not(e);
                            (r, o)
                        }
                    };
                    let (r, o) = (self.v(r), self.v(o));
                    Val::Agg(Rc::new(vec![r, o]))
                }
            }
            In::Sbb | In::Adc => {
                // {i8 carry, iN result} = a -/+ b -/+ (c != 0)
                let w = match &args[1].1 { Ty::Int(w) => *w as u16, _ => 64 };
                let c = self.e(&av[0], 8);
                let z8 = self.a.konst(0, 8);
                let cz = self.a.eq(c, z8);
                let cb = self.a.not(cz);
                let a = self.e(&av[1], w);
                let b = self.e(&av[2], w);
                let (za, zb, zc) = (self.a.zext(a, w + 1), self.a.zext(b, w + 1), self.a.zext(cb, w + 1));
                let op = if i == In::Sbb { Op::Sub } else { Op::Add };
                let t = self.a.bin(op, za, zb);
                let t = self.a.bin(op, t, zc);
                let r = self.a.extract(t, 0, w);
                let o = self.a.extract(t, w, 1);
                let o = self.a.zext(o, 8);
                let (r, o) = (self.v(r), self.v(o));
                Val::Agg(Rc::new(vec![o, r]))
            }
            In::UaddSat | In::UsubSat => {
                let (x, y) = (&av[0], &av[1]);
                let (r, o) = if i == In::UaddSat {
                    let r = self.bin(st, BOp::Add, w, x, y)?;
                    let o = self.icmp(Pred::Ult, w, &r, x);
                    (r, o)
                } else {
                    let r = self.bin(st, BOp::Sub, w, x, y)?;
                    let o = self.icmp(Pred::Ult, w, x, y);
                    (r, o)
                };
                let sat = c(if i == In::UaddSat { mw(w) } else { 0 });
                match o {
                    Val::C(k) => {
                        if k != 0 {
                            sat
                        } else {
                            r
                        }
                    }
                    Val::S(e) => self.ite(e, w, &sat, &r),
                    _ => panic!(),
                }
            }
            In::SaddSat | In::SsubSat => {
                if let (Val::C(p), Val::C(q)) = (&av[0], &av[1]) {
                    let (p, q) = (sext(*p, w), sext(*q, w));
                    let s = if i == In::SaddSat { p + q } else { p - q };
                    let mx = (mw(w) >> 1) as i128;
                    let s = s.min(mx).max(-mx - 1);
                    c(s as u128 & mw(w))
                } else {
                    let a = self.e(&av[0], w);
                    let b = self.e(&av[1], w);
                    let za = self.a.sext(a, w + 1);
                    let zb = self.a.sext(b, w + 1);
                    let z = self.a.bin(if i == In::SaddSat { Op::Add } else { Op::Sub }, za, zb);
                    let h1 = self.a.extract(z, w, 1);
                    let h0 = self.a.extract(z, w - 1, 1);
                    let o = self.a.bin(Op::Xor, h1, h0);
                    let r = self.a.extract(z, 0, w);
                    let mn = self.a.konst(1u128 << (w - 1), w);
                    let mx = self.a.konst(mw(w) >> 1, w);
                    let s = self.a.ite(h1, mn, mx);
                    let e = self.a.ite(o, s, r);
                    self.v(e)
                }
            }
            In::UshlSat => return Err(Stop::Error("ushl.sat".into())),
            In::Bswap => match &av[0] {
                Val::C(k) => {
                    let n = w / 8;
                    let mut r = 0u128;
                    for j in 0..n {
                        r = r << 8 | (k >> (8 * j)) & 0xff;
                    }
                    c(r)
                }
                Val::S(e) => {
                    let n = w / 8;
                    let mut acc: Option<E> = None;
                    for j in 0..n {
                        // byte j becomes byte n-1-j : build from the most significant = byte 0
                        let b = self.a.extract(*e, 8 * (n - 1 - j), 8);
                        acc = Some(match acc {
                            None => b,
                            Some(l) => self.a.concat(b, l),
                        });
                    }
                    let r = acc.unwrap();
                    self.v(r)
                }
                _ => panic!(),
            },
            In::Bitrev => {
                let bits: Vec<Val> = (0..w).map(|j| self.extr(&av[0], w, j, 1)).collect();
                let rev: Vec<Val> = bits.into_iter().rev().collect();
                self.pack(&Val::Agg(Rc::new(rev)), 1)?
            }
            In::IsConst => c(0),
            In::Ctlz | In::Cttz => {
                match &av[0] {
                    Val::C(k) => {
                        let r = if *k == 0 {
                            w as u128
                        } else if i == In::Ctlz {
                            (k.leading_zeros() as u16 - (128 - w)) as u128
                        } else {
                            k.trailing_zeros() as u128
                        };
                        c(r)
                    }
                    Val::S(e) => {
                        let mut acc = self.a.konst(w as u128, w);
                        for j in 0..w {
                            // lowest priority first
                            let bit = if i == In::Ctlz { j } else { w - 1 - j };
                            let b = self.a.extract(*e, bit, 1);
                            let k = if i == In::Ctlz { (w - 1 - bit) as u128 } else { bit as u128 };
                            let kc = self.a.konst(k, w);
                            acc = self.a.ite(b, kc, acc);
                        }
                        self.v(acc)
                    }
                    _ => panic!(),
                }
            }
            In::Ctpop => match &av[0] {
                Val::C(k) => c(k.count_ones() as u128),
                Val::S(e) => {
                    let mut acc = self.a.konst(0, w);
                    for j in 0..w {
                        let b = self.a.extract(*e, j, 1);
                        let z = self.a.zext(b, w);
                        acc = self.a.bin(Op::Add, acc, z);
                    }
                    self.v(acc)
                }
                _ => panic!(),
            },
            In::Abs => {
                let z = c(0);
                let neg = self.icmp(Pred::Slt, w, &av[0], &z);
                let m = self.bin(st, BOp::Sub, w, &z, &av[0])?;
                match neg {
                    Val::C(k) => {
                        if k != 0 {
                            m
                        } else {
                            av[0].clone()
                        }
                    }
                    Val::S(e) => self.ite(e, w, &m, &av[0]),
                    _ => panic!(),
                }
            }
            In::Scmp | In::Ucmp => {
                let rw = ret.width();
                let (lt, gt) = if i == In::Scmp { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let l = self.icmp(lt, w, &av[0], &av[1]);
                let g = self.icmp(gt, w, &av[0], &av[1]);
                let le = self.e(&l, 1);
                let ge = self.e(&g, 1);
                let m1 = self.a.konst(mw(rw), rw);
                let p1 = self.a.konst(1, rw);
                let z = self.a.konst(0, rw);
                let x = self.a.ite(ge, p1, z);
                let r = self.a.ite(le, m1, x);
                self.v(r)
            }
            In::Fshl | In::Fshr => {
                let sh = self.concretize(st, &av[2], w)? % w as u128;
                if sh == 0 {
                    if i == In::Fshl {
                        av[0].clone()
                    } else {
                        av[1].clone()
                    }
                } else {
                    let (l, r) = if i == In::Fshl { (sh, w as u128 - sh) } else { (w as u128 - sh, sh) };
                    let x = self.bin(st, BOp::Shl, w, &av[0], &c(l))?;
                    let y = self.bin(st, BOp::LShr, w, &av[1], &c(r))?;
                    self.bin(st, BOp::Or, w, &x, &y)?
                }
            }
            In::Expect => av[0].clone(),
            In::Tls => {
                let cur = st.mem.cur as usize;
                if cur == 0 {
                    return Ok(Some(av[0].clone()));
                }
                let g = self.concretize(st, &av[0], 64)? as u64;
                if let Some((_, a)) = st.threads[cur].tls.iter().find(|(x, _)| *x == g) {
                    return Ok(Some(c(*a as u128)));
                }
                let (size, buf) = {
                    let gl = &self.m.globals[((g >> 32) - 1) as usize];
                    let size = gl.ty.size();
                    let mut buf = vec![0u8; size as usize];
                    if let Some(k) = &gl.init {
                        put_const(&mut buf, 0, k, &gl.ty);
                    }
                    (size, buf)
                };
                let a = st.mem.alloc_heap(size);
                st.mem.check_mut(a, size).map_err(|_| Stop::Error("tls".into()))?.write(0, &buf);
                st.threads[cur].tls.push((g, a));
                c(a as u128)
            }
            In::Trap => return Err(Stop::Panic(format!("trap in {}", self.site(st)))),
            In::RedOr | In::RedAnd | In::RedAdd => {
                let ew = args[0].1.elem(0).width();
                let o = match i {
                    In::RedOr => BOp::Or,
                    In::RedAnd => BOp::And,
                    _ => BOp::Add,
                };
                if let Val::Agg(v) = &av[0] {
                    let mut acc = v[0].clone();
                    for x in &v[1..] {
                        acc = self.bin(st, o, ew, &acc, x)?;
                    }
                    acc
                } else {
                    panic!()
                }
            }
            In::ObjSize => c(mw(ret.width())),
        };
        Ok(Some(r))
    }
    fn bits_hi(&self, e: E) -> bool {
        // top bit known zero
        matches!(self.a.node(e), Node::ZExt(_)) || matches!(self.a.node(e), Node::Const(k) if k >> (self.a.w(e) - 1) == 0)
    }

    fn malloc(&mut self, st: &mut State, sz: &Val) -> R<u64> {
        if let Val::S(e) = sz {
            let lim = self.a.konst(self.lim.max_alloc as u128, 64);
            let big = self.a.bin(Op::Ult, lim, *e);
            if self.branch(st, big)? {
                return Err(Stop::Violation(format!("allocation larger than {} bytes in {}", self.lim.max_alloc, self.site(st))));
            }
        }
        let n = self.concretize(st, sz, 64)? as u64;
        if n > self.lim.max_alloc {
            return Err(Stop::Violation(format!("allocation larger than {} bytes in {}", self.lim.max_alloc, self.site(st))));
        }
        Ok(st.mem.alloc_heap(n))
    }

    /// futex(addr, op, val, timeout): wait and wake
    fn futex(&mut self, st: &mut State, av: &[Val]) -> R<Val> {
        let addr = self.concretize(st, &av[1], 64)? as u64;
        let op = self.concretize(st, &av[2], 32)? as u32 & 0x7f;
        let val = self.concretize(st, &av[3], 32)?;
        match op {
            0 | 9 => {
                let now = self.load(st, addr, &Ty::Int(32))?;
                let now = self.concretize(st, &now, 32)?;
                if now != val {
                    let a = self.errno_addr;
                    self.store(st, a, &Ty::Int(32), &c(11))?;
                    return Ok(c(u64::MAX as u128));
                }
                let tmo = self.concretize(st, &av[4], 64)?;
                if tmo != 0 {
                    return Err(Stop::Error("futex wait with a timeout".into()));
                }
                let cur = st.mem.cur as usize;
                if !st.threads.is_empty() {
                    st.threads[cur].status = TStat::Wait(addr);
                }
                st.switch = true;
                Ok(c(0))
            }
            1 | 10 => {
                let mut n = 0;
                for t in st.threads.iter_mut() {
                    if n < val && t.status == TStat::Wait(addr) {
                        t.status = TStat::Ready;
                        n += 1;
                    }
                }
                if n > 0 && self.params.get("sched").copied().unwrap_or(0) & 2 == 2 {
                    st.switch = true;
                }
                Ok(c(n))
            }
            o => Err(Stop::Error(format!("futex op {}", o))),
        }
    }

    fn external(&mut self, st: &mut State, fid: u32, x: Ex, av: Vec<Val>) -> R<Option<Val>> {
        let r = match x {
            Ex::Malloc => c(self.malloc(st, &av[0])? as u128),
            Ex::Calloc => {
                let t = self.bin(st, BOp::Mul, 64, &av[0], &av[1])?;
                c(self.malloc(st, &t)? as u128)
            }
            Ex::PosixMemalign => {
                let pp = self.concretize(st, &av[0], 64)? as u64;
                let a = self.malloc(st, &av[2])?;
                self.store(st, pp, &Ty::Ptr, &c(a as u128))?;
                c(0)
            }
            Ex::Realloc => {
                let old = self.concretize(st, &av[0], 64)? as u64;
                let a = self.malloc(st, &av[1])?;
                if old != 0 {
                    let osz = match st.mem.check(old, 0) {
                        Ok(o) => o.size,
                        Err(e) => return Err(self.merr(st, e)),
                    };
                    let nsz = st.mem.obj(a).unwrap().size;
                    self.memcpy(st, a, old, osz.min(nsz))?;
                    self.secret_check(st, old)?;
                    if let Err(e) = st.mem.free(old) {
                        return Err(self.merr(st, e));
                    }
                }
                c(a as u128)
            }
            Ex::Free => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                if p != 0 {
                    self.secret_check(st, p)?;
                    if let Err(e) = st.mem.free(p) {
                        return Err(self.merr(st, e));
                    }
                }
                return Ok(None);
            }
            Ex::Memcmp | Ex::Bcmp => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                if n == 0 {
                    return Ok(Some(c(0)));
                }
                let p = self.concretize(st, &av[0], 64)? as u64;
                let q = self.concretize(st, &av[1], 64)? as u64;
                for a in [p, q] {
                    if let Err(e) = st.mem.check(a, n) {
                        return Err(self.merr(st, e));
                    }
                }
                let conc = !st.mem.obj(p).unwrap().has_sym(p & 0xffff_ffff, n) && !st.mem.obj(q).unwrap().has_sym(q & 0xffff_ffff, n);
                if conc {
                    let a = st.mem.read_bytes(p, n).unwrap();
                    let b = st.mem.read_bytes(q, n).unwrap();
                    let r: i32 = match a.cmp(&b) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return Ok(Some(c(r as u32 as u128)));
                }
                let zero = self.a.konst(0, 32);
                let one = self.a.konst(1, 32);
                let mone = self.a.konst(0xffff_ffff, 32);
                if x == Ex::Bcmp {
                    let mut alleq = self.a.t;
                    for i in 0..n {
                        let a = self.load_byte(st, p + i).unwrap();
                        let b = self.load_byte(st, q + i).unwrap();
                        let e = self.a.eq(a, b);
                        alleq = self.a.and(alleq, e);
                        if alleq == self.a.f {
                            break;
                        }
                    }
                    let r = self.a.ite(alleq, zero, one);
                    self.v(r)
                } else {
                    let mut acc = zero;
                    for i in (0..n).rev() {
                        let a = self.load_byte(st, p + i).unwrap();
                        let b = self.load_byte(st, q + i).unwrap();
                        let e = self.a.eq(a, b);
                        let l = self.a.bin(Op::Ult, a, b);
                        let d = self.a.ite(l, mone, one);
                        acc = self.a.ite(e, acc, d);
                    }
                    self.v(acc)
                }
            }
            Ex::Strlen => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                let mut n = 0;
                loop {
                    match st.mem.check(p + n, 1) {
                        Ok(o) => {
                            let off = (p + n) & 0xffff_ffff;
                            if o.sym_at(off) != 0 {
                                return Err(Stop::Error("strlen on symbolic".into()));
                            }
                            if o.bytes[off as usize] == 0 {
                                break;
                            }
                        }
                        Err(e) => return Err(self.merr(st, e)),
                    }
                    n += 1;
                }
                c(n as u128)
            }
            Ex::Memchr => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                let p = self.concretize(st, &av[0], 64)? as u64;
                let ch = self.cast(Cast::Trunc, 32, 8, &av[1]);
                for i in 0..n {
                    let b = match self.load_byte(st, p + i) {
                        Ok(b) => b,
                        Err(e) => return Err(self.merr(st, e)),
                    };
                    let k = self.e(&ch, 8);
                    let q = self.a.eq(b, k);
                    if self.branch(st, q)? {
                        return Ok(Some(c((p + i) as u128)));
                    }
                }
                c(0)
            }
            Ex::Getenv | Ex::Zero => c(0),
            Ex::PthreadSelf => c(st.mem.cur as u128 + 1),
            Ex::PthreadCreate => {
                let out = self.concretize(st, &av[0], 64)? as u64;
                let start = self.concretize(st, &av[2], 64)? as u64;
                if start < ir::FN_BASE || (start - ir::FN_BASE) / 16 >= self.m.fns.len() as u64 {
                    return Err(Stop::Error("thread start routine".into()));
                }
                let fid = ((start - ir::FN_BASE) / 16) as u32;
                let f = match self.m.func(fid) {
                    Some(f) => f,
                    None => return Err(Stop::Error("thread start routine has no body".into())),
                };
                self.funcs_used.insert(fid);
                let mut regs = vec![Val::C(0); f.nregs as usize];
                regs[f.params[0] as usize] = av[3].clone();
                let fr = Frame { f, regs, block: 0, ip: 0, stack_base: 0, dst: None, normal: None };
                if st.threads.is_empty() {
                    st.threads.push(Thread { frames: vec![], status: TStat::Ready, tls: vec![], joiner: None });
                }
                let t = st.threads.len();
                st.threads.push(Thread { frames: vec![fr], status: TStat::Ready, tls: vec![], joiner: None });
                while st.mem.stacks.len() <= t {
                    st.mem.stacks.push(Default::default());
                }
                self.store(st, out, &Ty::Int(64), &c(t as u128 + 1))?;
                if self.params.get("sched").copied().unwrap_or(0) & 1 == 1 {
                    st.switch = true;
                }
                c(0)
            }
            Ex::PthreadKey => {
                st.keys += 1;
                let (p, k) = (self.concretize(st, &av[0], 64)? as u64, st.keys);
                self.store(st, p, &Ty::Int(32), &c(k as u128))?;
                c(0)
            }
            Ex::PthreadJoin => {
                let t = self.concretize(st, &av[0], 64)? as usize - 1;
                if st.threads[t].status != TStat::Dead {
                    let cur = st.mem.cur as usize;
                    st.threads[t].joiner = Some(cur);
                    st.threads[cur].status = TStat::Wait(0);
                    st.switch = true;
                }
                c(0)
            }
            Ex::Minus1 | Ex::Open | Ex::Read => {
                let a = self.errno_addr;
                self.store(st, a, &Ty::Int(32), &c(2))?;
                c(u64::MAX as u128 & if x == Ex::Open { 0xffff_ffff } else { u64::MAX as u128 })
            }
            Ex::Sysconf => c(4096),
            Ex::Errno => c(self.errno_addr as u128),
            Ex::Write => av[2].clone(),
            Ex::Syscall => {
                // getrandom(buf, len, flags) or syscall(SYS_getrandom, buf, len, flags)
                let is_sys = self.m.fns[fid as usize].sym == "syscall";
                let k = if is_sys {
                    match &av[0] {
                        Val::C(318) => 1,
                        Val::C(202) => return self.futex(st, &av).map(Some),
                        Val::C(n) => return Err(Stop::Error(format!("syscall {}", n))),
                        _ => return Err(Stop::Error("syscall".into())),
                    }
                } else {
                    0
                };
                let p = self.concretize(st, &av[k], 64)? as u64;
                let n = self.concretize(st, &av[k + 1], 64)? as u64;
                for i in 0..n {
                    st.rand_ctr += 1;
                    let b = (st.rand_ctr.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u128;
                    self.store(st, p + i, &Ty::Int(8), &c(b))?;
                }
                c(n as u128)
            }
            Ex::ClockGettime => {
                let p = self.concretize(st, &av[1], 64)? as u64;
                self.store(st, p, &Ty::Int(64), &c(1_700_000_000))?;
                self.store(st, p + 8, &Ty::Int(64), &c(0))?;
                c(0)
            }
            Ex::SymBytes => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                let n = self.concretize(st, &av[1], 64)? as u64;
                let mut parts = vec![];
                for _ in 0..n {
                    let v = st.model.len() as u32;
                    st.model.push(0);
                    st.dom.push(FULL);
                    st.multi.push(false);
                    parts.push(self.a.var(v));
                }
                self.vars_max = self.vars_max.max(st.model.len());
                if n > 0 {
                    self.store_exprs(st, p, &parts)?;
                }
                return Ok(None);
            }
            Ex::SymAssume => {
                let z = c(0);
                let q = self.icmp(Pred::Ne, 32, &av[0], &z);
                match q {
                    Val::C(k) => {
                        if k == 0 {
                            return Err(Stop::Killed);
                        }
                    }
                    Val::S(e) => match self.sat(st, e)? {
                        None => return Err(Stop::Killed),
                        Some(mo) => {
                            st.model = mo;
                            self.assert_in(st, e);
                            self.killed_in_sub = true;
                        }
                    },
                    _ => panic!(),
                }
                return Ok(None);
            }
            Ex::SymCheck => {
                self.st.checks += 1;
                let p = self.concretize(st, &av[1], 64)? as u64;
                let n = self.concretize(st, &av[2], 64)? as u64;
                let label = self.str_at(st, p, n);
                let z = c(0);
                let q = self.icmp(Pred::Ne, 32, &av[0], &z);
                let q = self.res(st, q);
                match q {
                    Val::C(k) => {
                        self.st.checks_const += 1;
                        if k == 0 {
                            return Err(Stop::Violation(format!("check: {}", label)));
                        }
                    }
                    Val::S(e) => {
                        self.st.checks_solver += 1;
                        let ne = self.a.not(e);
                        // the deciding query always goes to the solver
                        let r = if self.a.eval(ne, &st.model) != 0 { Some(st.model.clone()) } else { self.sat_z3(st, ne)? };
                        if let Some(mo) = r {
                            let mut o = st.clone();
                            o.model = mo;
                            self.record_viol(&o, format!("check: {}", label), String::new());
                            match self.sat(st, e)? {
                                None => return Err(Stop::Killed),
                                Some(mo) => {
                                    st.model = mo;
                                    self.assert_in(st, e);
                                    self.killed_in_sub = true;
                                }
                            }
                        }
                    }
                    _ => panic!(),
                }
                return Ok(None);
            }
            Ex::SymCover => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                let n = self.concretize(st, &av[1], 64)? as u64;
                let label = self.str_at(st, p, n);
                let id = match self.cover_ids.get(&label) {
                    Some(&i) => i,
                    None => {
                        let i = self.cover_names.len() as u32;
                        self.cover_ids.insert(label.clone(), i);
                        self.cover_names.push(label);
                        self.cover_hits.push(0);
                        self.cover_tape.push(None);
                        i
                    }
                };
                self.cover_hits[id as usize] += 1;
                if self.cover_tape[id as usize].is_none() {
                    self.cover_tape[id as usize] = Some(st.model.clone());
                }
                st.covers.push(id);
                return Ok(None);
            }
            Ex::SymParam => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                let n = self.concretize(st, &av[1], 64)? as u64;
                let name = self.str_at(st, p, n);
                match self.params.get(&name) {
                    Some(v) => c(*v as u128),
                    None => c(0),
                }
            }
            Ex::SymNote => {
                st.notes.push(av[0].clone());
                return Ok(None);
            }
            Ex::SymConcretize => c(self.concretize(st, &av[0], 64)?),
            Ex::SymSecret => {
                // mark the variables stored at [p, p+n) as secret
                let p = self.concretize(st, &av[0], 64)? as u64;
                let n = self.concretize(st, &av[1], 64)? as u64;
                for i in 0..n {
                    if let Ok(e) = self.load_byte(st, p + i) {
                        if let Node::Var(v) = self.a.node(e) {
                            st.secret_from.push((v, 0));
                        }
                    }
                }
                return Ok(None);
            }
            Ex::SymLeak => {
                st.secret_from.clear();
                return Ok(None);
            }
            Ex::SymDebug => {
                eprintln!("sym_debug {:?} steps={} pc={}", av.iter().map(|v| match v { Val::S(e) => self.a.show(*e, 6), v => format!("{:?}", v) }).collect::<Vec<_>>(), st.steps, st.pc.len());
                return Ok(None);
            }
        };
        Ok(Some(r))
    }
    /// With secrets registered, memory must not be released while it still holds them verbatim.
    fn secret_check(&mut self, st: &mut State, p: u64) -> R<()> {
        if st.secret_from.is_empty() {
            return Ok(());
        }
        let o = match st.mem.obj(p) {
            Some(o) => o.clone(),
            None => return Ok(()),
        };
        self.st.checks += 1;
        if o.sym.is_none() {
            return Ok(());
        }
        for i in 0..o.size {
            let e = o.sym_at(i);
            if e == 0 {
                continue;
            }
            if let Node::Var(v) = self.a.node(e) {
                if st.secret_from.iter().any(|(s, _)| *s == v) {
                    return Err(Stop::Violation(format!("secret byte released without being cleared in {}", self.site(st))));
                }
            }
        }
        Ok(())
    }

    // ---------- driver ----------
    fn eval_notes(&mut self, st: &State) -> Vec<u64> {
        let mut out = vec![];
        for n in &st.notes {
            out.push(match n {
                Val::C(k) => *k as u64,
                Val::S(e) => self.a.eval(*e, &st.model) as u64,
                _ => 0,
            });
        }
        out
    }
    fn record_viol(&mut self, st: &State, label: String, site: String) {
        let n = self.viol_counts.entry(label.clone()).or_insert(0);
        *n += 1;
        if *n <= 3 {
            let notes = self.eval_notes(st);
            let stack = self.stack_names(st);
            self.viols.push(Viol { label, site, tape: st.model.clone(), stack, notes });
        }
        if self.viols.len() >= self.max_viol {
            self.stop_all = true;
        }
    }
    fn path_end(&mut self, st: State, s: Stop) {
        match s {
            Stop::Done => {
                self.st.paths_done += 1;
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let n = self.st.paths_done;
                let slot = if self.samples.len() < self.sample_max {
                    Some(self.samples.len())
                } else {
                    let r = (self.rng >> 33) % n;
                    if (r as usize) < self.sample_max {
                        Some(r as usize)
                    } else {
                        None
                    }
                };
                if let Some(i) = slot {
                    let notes = self.eval_notes(&st);
                    let covers = st.covers.iter().map(|i| self.cover_names[*i as usize].clone()).collect();
                    let smp = Sample { tape: st.model.clone(), notes, covers, constraints: st.pc.len() + st.dom.iter().filter(|d| **d != FULL).count(), steps: st.steps };
                    if i < self.samples.len() {
                        self.samples[i] = smp;
                    } else {
                        self.samples.push(smp);
                    }
                }
            }
            Stop::Killed => self.st.paths_killed += 1,
            Stop::Panic(m) => {
                self.st.paths_panic += 1;
                self.record_viol(&st, m, String::new());
            }
            Stop::Violation(m) => {
                self.st.paths_panic += 1;
                self.record_viol(&st, m, String::new());
            }
            Stop::Error(m) => {
                self.st.paths_error += 1;
                *self.errors.entry(m).or_insert(0) += 1;
            }
            Stop::Timeout => {
                self.st.paths_truncated += 1;
                self.timed_out = true;
            }
        }
    }
    /// Explore everything (this worker's share when split).
    pub fn explore(&mut self, init: State, worker: usize, workers: usize) {
        self.work.push(init);
        if workers > 1 {
            // deterministic breadth-first prefix, identical in every worker
            let goal = workers * 12;
            let mut queue: std::collections::VecDeque<State> = std::collections::VecDeque::new();
            queue.extend(self.work.drain(..));
            let mut rounds = 0;
            while queue.len() < goal && !queue.is_empty() && rounds < 4000 {
                rounds += 1;
                let mut s = queue.pop_front().unwrap();
                // run until it forks or ends
                let r = self.run_until_fork(&mut s);
                match r {
                    None => {
                        // forked: s continues
                        queue.push_back(s);
                        queue.extend(self.work.drain(..));
                    }
                    Some(stop) => {
                        queue.extend(self.work.drain(..));
                        if matches!(stop, Stop::Timeout) {
                            self.timed_out = true;
                            return;
                        }
                        self.path_end(s, stop);
                    }
                }
            }
            if worker != 0 {
                // prefix results are reported by worker 0
                let keep = self.cover_names.len();
                self.st = Stats::default();
                self.viols.clear();
                self.viol_counts.clear();
                self.samples.clear();
                for i in 0..keep {
                    self.cover_hits[i] = 0;
                }
                self.errors.clear();
            }
            for (i, s) in queue.into_iter().enumerate() {
                if i % workers == worker {
                    self.work.push(s);
                }
            }
        }
        let mut last = Instant::now();
        while let Some(mut s) = self.work.pop() {
            let r = self.run_path(&mut s, 0);
            let tmo = matches!(r, Stop::Timeout);
            self.path_end(s, r);
            if tmo {
                self.st.paths_truncated += self.work.len() as u64;
                break;
            }
            if self.stop_all {
                self.st.paths_truncated += self.work.len() as u64;
                break;
            }
            let total = self.st.paths_done + self.st.paths_killed + self.st.paths_panic + self.st.paths_error;
            if total >= self.lim.max_paths || (total & 63 == 0 && Instant::now() > self.lim.deadline) {
                self.timed_out = true;
                self.st.paths_truncated += self.work.len() as u64;
                break;
            }
            if last.elapsed() > Duration::from_secs(10) {
                last = Instant::now();
                eprintln!("  .. paths {} (+{} killed) work {} steps {}M queries {} z3 {:.1}s", self.st.paths_done, self.st.paths_killed, self.work.len(), self.st.steps / 1_000_000, self.s.stats.queries, self.s.stats.time_us as f64 / 1e6);
            }
        }
    }
    fn run_until_fork(&mut self, st: &mut State) -> Option<Stop> {
        let mut local = 0u64;
        loop {
            st.steps += 1;
            self.st.steps += 1;
            local += 1;
            if local & 0xfff == 0 {
                if Instant::now() > self.lim.deadline {
                    return Some(Stop::Timeout);
                }
                if st.steps > self.lim.max_steps {
                    return Some(Stop::Error("step limit".into()));
                }
            }
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return Some(s),
            }
            if !self.work.is_empty() {
                return None;
            }
        }
    }
}

fn looks_ptr(p: u64) -> bool {
    let id = p >> 32;
    id >= 1 && (id < 0x10000 || (id >= HEAP && id < HEAP + 0x1000_0000) || (id >= STACK && id < STACK + 0x100_0000) || p >= ir::FN_BASE)
}
fn val_compat(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Agg(x), Val::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| val_compat(p, q)),
        (Val::Agg(_), _) | (_, Val::Agg(_)) => false,
        (Val::C(p), Val::C(q)) => p == q || !(looks_ptr(*p as u64) || looks_ptr(*q as u64)),
        (Val::C(p), _) | (_, Val::C(p)) => !looks_ptr(*p as u64),
        _ => true,
    }
}
fn sym_same(x: &Obj, y: &Obj) -> bool {
    match (&x.sym, &y.sym) {
        (None, None) => true,
        (Some(a), Some(b)) => Rc::ptr_eq(a, b),
        _ => false,
    }
}
fn lanes2<'a>(x: &'a Val, y: &'a Val) -> (&'a Vec<Val>, &'a Vec<Val>) {
    match (x, y) {
        (Val::Agg(a), Val::Agg(b)) => (a, b),
        _ => panic!("lanes"),
    }
}
fn insert(v: Val, t: &Ty, ix: &[u32], y: Val) -> Val {
    if ix.is_empty() {
        return y;
    }
    let i = ix[0] as usize;
    match v {
        Val::Agg(mut a) => {
            let et = t.elem(i as u64);
            let m = Rc::make_mut(&mut a);
            let old = std::mem::replace(&mut m[i], Val::C(0));
            m[i] = insert(old, et, &ix[1..], y);
            Val::Agg(a)
        }
        _ => {
            // undefined aggregate
            let z = Exec::kval(&K::Zero, t);
            insert(z, t, ix, y)
        }
    }
}
fn put_const(buf: &mut [u8], off: u64, k: &K, t: &Ty) {
    match k {
        K::Zero => {}
        K::Int(v) => {
            let n = ((t.width() + 7) / 8) as usize;
            buf[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        K::Agg(ks) => {
            for (i, k) in ks.iter().enumerate() {
                put_const(buf, off + t.field_off(i as u64), k, t.elem(i as u64));
            }
        }
    }
}
