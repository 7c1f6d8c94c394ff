//! Parser for the textual LLVM IR that rustc emits for the harness crate (whole program, after LTO).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if b <= 1 {
                    1
                } else {
                    let a = self.align();
                    (b + a - 1) / a * a
                }
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { f.align() };
                    al = al.max(a);
                    o = (o + a - 1) / a * a;
                    o += f.size();
                }
                (o + al - 1) / al * al
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    o = (o + a - 1) / a * a;
                    if k as u64 == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn elem(&self, i: u64) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i as usize],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn nelem(&self) -> u64 {
        match self {
            Ty::Struct(fs, _) => fs.len() as u64,
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
    pub fn width(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr)
    }
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Agg(Vec<K>),
    Zero,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u128),
    K(Rc<(K, Ty)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    /// inline assembly, with its template
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BOp, Ty, u32, Opd, Opd),
    ICmp(Pred, Ty, u32, Opd, Opd),
    Cast(Cast, Ty, Ty, u32, Opd),
    Load(Ty, u32, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u16, u64)>),
    Alloca(u32, u64),
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Opd, Ty)>, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, u32, Vec<(u128, u32)>),
    Ret(Option<(Opd, Ty)>),
    Unreachable,
    Select(u32, Opd, Ty, Opd, Opd, Ty),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Ty, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Ty, Opd),
    InsertElement(u32, Opd, Ty, Opd, Opd),
    Shuffle(u32, Opd, Opd, Ty, Vec<u32>),
    Rmw(String, Ty, u32, Opd, Opd),
    CmpXchg(Ty, u32, Opd, Opd, Opd),
    Copy(u32, Opd, Ty),
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>, Ty)>,
    pub insts: Vec<Inst>,
    pub name: String,
}
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FnInfo {
    pub sym: String,
    pub pretty: String,
    pub body: Option<(usize, usize)>, // byte range of header start..end
    pub weak: bool,
    pub parsed: Option<Rc<Func>>,
}

pub struct GlobalInit {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
}

pub struct Module {
    pub src: Vec<u8>,
    pub fns: Vec<FnInfo>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalInit>,
    pub glob_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
}

pub const FN_BASE: u64 = 0xF000_0000_0000_0000;
pub fn fn_addr(id: u32) -> u64 {
    FN_BASE + (id as u64) * 16
}
pub const GLOB_BASE: u64 = 1; // object id of global 0
pub fn glob_addr(i: u32) -> u64 {
    (GLOB_BASE + i as u64) << 32
}

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}

impl<'a> Lex<'a> {
    fn new(s: &'a [u8]) -> Self {
        Lex { s, p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, self.rest());
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..(self.p + 200).min(self.s.len())]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || matches!(self.s[self.p], b'_' | b'.' | b'-' | b'$')) {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.word() == w {
            true
        } else {
            self.p = p;
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        let mut q = false;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            self.p += 1;
            if q {
                if c == b'"' {
                    q = false;
                }
                continue;
            }
            match c {
                b'"' => q = true,
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            self.word().to_string()
        }
    }
    fn uint(&mut self) -> u64 {
        self.ws();
        let mut v = 0u64;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
            v = v * 10 + (self.s[self.p] - b'0') as u64;
            self.p += 1;
        }
        v
    }
}

fn parse_int(w: &str) -> u128 {
    if let Some(r) = w.strip_prefix('-') {
        (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
    } else {
        w.parse::<u128>().unwrap_or_else(|_| panic!("int {}", w))
    }
}

pub fn maskw(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

struct Ctx<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'a> Ctx<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("block {}", n))
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path).expect("read ll");
        let mut m = Module { src, fns: vec![], fn_by_name: HashMap::new(), globals: vec![], glob_by_name: HashMap::new(), aliases: HashMap::new(), types: HashMap::new() };
        m.index();
        m
    }
    fn add_fn(&mut self, sym: String, pretty: String, body: Option<(usize, usize)>, weak: bool) {
        let id = self.fns.len() as u32;
        self.fn_by_name.insert(sym.clone(), id);
        self.fns.push(FnInfo { pretty: if pretty.is_empty() { sym.clone() } else { pretty }, sym, body, weak, parsed: None });
    }
    fn index(&mut self) {
        let src = std::mem::take(&mut self.src);
        let mut pos = 0;
        let mut pretty = String::new();
        let mut globs: Vec<(usize, usize)> = vec![];
        while pos < src.len() {
            let eol = src[pos..].iter().position(|c| *c == b'\n').map(|x| pos + x).unwrap_or(src.len());
            let line = &src[pos..eol];
            if line.starts_with(b"; Function Attrs") {
            } else if line.starts_with(b"; ") {
                pretty = String::from_utf8_lossy(&line[2..]).into_owned();
            } else if line.starts_with(b"define ") {
                // find end of the body
                let mut e = eol + 1;
                loop {
                    let l = src[e..].iter().position(|c| *c == b'\n').map(|x| e + x).unwrap_or(src.len());
                    if &src[e..l] == b"}" {
                        e = l;
                        break;
                    }
                    e = l + 1;
                }
                let sym = Self::fn_name(line);
                self.add_fn(sym, std::mem::take(&mut pretty), Some((pos, e)), false);
                pos = e + 1;
                continue;
            } else if line.starts_with(b"declare ") {
                let sym = Self::fn_name(line);
                let weak = line.starts_with(b"declare extern_weak");
                self.add_fn(sym, std::mem::take(&mut pretty), None, weak);
            } else if line.starts_with(b"@") {
                globs.push((pos, eol));
            } else if line.starts_with(b"%") {
                let mut l = Lex::new(line);
                l.p = 1;
                let n = l.name();
                l.expect(b'=');
                l.eat_word("type");
                let t = self.ty(&mut l);
                self.types.insert(n, t);
            } else if line.is_empty() {
                pretty.clear();
            }
            pos = eol + 1;
        }
        // first pass: names
        let mut todo = vec![];
        for (s, e) in globs {
            let line = &src[s..e];
            let mut l = Lex::new(line);
            l.p = 1;
            let name = l.name();
            l.expect(b'=');
            let save = l.p;
            let mut is_alias = false;
            let mut is_ext = false;
            let mut constant = false;
            loop {
                let w = l.word();
                match w {
                    "alias" => {
                        is_alias = true;
                        break;
                    }
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "external" | "extern_weak" => is_ext = true,
                    "" => {
                        panic!("global line {}", String::from_utf8_lossy(&line[..line.len().min(200)]))
                    }
                    _ => {
                        if l.peek() == b'(' {
                            l.skip_parens();
                        }
                    }
                }
            }
            let _ = save;
            if is_alias {
                let t = self.ty(&mut l);
                let _ = t;
                l.expect(b',');
                let _ = self.ty(&mut l);
                l.expect(b'@');
                let tgt = l.name();
                self.aliases.insert(name, tgt);
                continue;
            }
            let id = self.globals.len() as u32;
            self.glob_by_name.insert(name.clone(), id);
            let ty = self.ty(&mut l);
            self.globals.push(GlobalInit { name, ty: ty.clone(), init: None, constant });
            if !is_ext {
                todo.push((id, s, s + l.p, e));
            }
        }
        // second pass: initialisers
        for (id, _s, p, e) in todo {
            let line = &src[p..e];
            let mut l = Lex::new(line);
            let ty = self.globals[id as usize].ty.clone();
            let k = self.konst(&mut l, &ty);
            self.globals[id as usize].init = Some(k);
        }
        self.src = src;
    }
    fn fn_name(line: &[u8]) -> String {
        let p = line.iter().position(|c| *c == b'@').unwrap();
        let mut l = Lex::new(line);
        l.p = p + 1;
        l.name()
    }
    pub fn ty(&self, l: &mut Lex) -> Ty {
        let c = l.peek();
        match c {
            b'[' => {
                l.p += 1;
                let n = l.uint();
                l.eat_word("x");
                let t = self.ty(l);
                l.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'{' => {
                l.p += 1;
                let mut fs = vec![];
                if !l.eat(b'}') {
                    loop {
                        fs.push(self.ty(l));
                        if !l.eat(b',') {
                            break;
                        }
                    }
                    l.expect(b'}');
                }
                Ty::Struct(fs, false)
            }
            b'<' => {
                l.p += 1;
                if l.peek() == b'{' {
                    l.p += 1;
                    let mut fs = vec![];
                    if !l.eat(b'}') {
                        loop {
                            fs.push(self.ty(l));
                            if !l.eat(b',') {
                                break;
                            }
                        }
                        l.expect(b'}');
                    }
                    l.expect(b'>');
                    Ty::Struct(fs, true)
                } else {
                    let n = l.uint();
                    l.eat_word("x");
                    let t = self.ty(l);
                    l.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'%' => {
                l.p += 1;
                let n = l.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            b'.' => {
                l.p += 3;
                Ty::Other
            }
            _ => {
                let w = l.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if l.peek_word() == "addrspace" {
                            l.word();
                            l.ws();
                            l.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Int(32),
                    "double" => Ty::Int(64),
                    "half" => Ty::Int(16),
                    "label" | "metadata" | "token" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type '{}' at {}", w, l.rest()),
                }
            }
        }
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(&g) = self.glob_by_name.get(n) {
            return glob_addr(g);
        }
        if let Some(&f) = self.fn_by_name.get(n) {
            if self.fns[f as usize].weak && n != "__cxa_thread_atexit_impl" {
                return 0;
            }
            return fn_addr(f);
        }
        panic!("unknown symbol @{}", n)
    }
    /// constant of a type (no local registers)
    fn konst(&self, l: &mut Lex, ty: &Ty) -> K {
        match l.peek() {
            b'c' if l.s.get(l.p + 1) == Some(&b'"') => {
                l.p += 2;
                let mut v = vec![];
                while l.s[l.p] != b'"' {
                    if l.s[l.p] == b'\\' && l.s[l.p + 1] == b'\\' {
                        v.push(K::Int(b'\\' as u128));
                        l.p += 2;
                    } else if l.s[l.p] == b'\\' {
                        let h = std::str::from_utf8(&l.s[l.p + 1..l.p + 3]).unwrap();
                        v.push(K::Int(u8::from_str_radix(h, 16).unwrap() as u128));
                        l.p += 3;
                    } else {
                        v.push(K::Int(l.s[l.p] as u128));
                        l.p += 1;
                    }
                }
                l.p += 1;
                K::Agg(v)
            }
            b'[' | b'{' | b'<' => {
                let packed = l.peek() == b'<';
                let open = l.s[l.p];
                l.p += 1;
                let mut close = match open {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => b'>',
                };
                let mut ps = false;
                if packed && l.peek() == b'{' {
                    l.p += 1;
                    close = b'}';
                    ps = true;
                }
                let mut v = vec![];
                if l.peek() != close {
                    loop {
                        let t = self.ty(l);
                        v.push(self.konst(l, &t));
                        if !l.eat(b',') {
                            break;
                        }
                    }
                }
                l.expect(close);
                if ps {
                    l.expect(b'>');
                }
                K::Agg(v)
            }
            b'@' => {
                l.p += 1;
                let n = l.name();
                K::Int(self.sym_addr(&n) as u128)
            }
            _ => {
                let w = l.word();
                match w {
                    "true" => K::Int(1),
                    "false" | "null" | "none" => K::Int(0),
                    "undef" | "poison" | "zeroinitializer" => {
                        if ty.is_scalar() {
                            K::Int(0)
                        } else {
                            K::Zero
                        }
                    }
                    "splat" => {
                        l.expect(b'(');
                        let t = self.ty(l);
                        let k = self.konst(l, &t);
                        l.expect(b')');
                        K::Agg(vec![k; ty.nelem() as usize])
                    }
                    "getelementptr" => {
                        while l.peek() != b'(' {
                            l.word();
                            if l.peek() == b'(' && l.s[l.p - 1] != b' ' {
                                // inrange(...)
                                l.skip_parens();
                            }
                        }
                        l.expect(b'(');
                        let t = self.ty(l);
                        l.expect(b',');
                        let bt = self.ty(l);
                        let b = self.kint(l, &bt);
                        let mut off = b as u64;
                        let mut cur = t.clone();
                        let mut first = true;
                        while l.eat(b',') {
                            let it = self.ty(l);
                            let i = self.kint(l, &it);
                            let i = crate::expr::sext(i & maskw(it.width()), it.width()) as i64;
                            if first {
                                off = off.wrapping_add((i as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                off = off.wrapping_add(cur.field_off(i as u64));
                                cur = cur.elem(i as u64).clone();
                            }
                        }
                        l.expect(b')');
                        K::Int(off as u128)
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "addrspacecast" => {
                        l.expect(b'(');
                        let t = self.ty(l);
                        let v = self.kint(l, &t);
                        l.eat_word("to");
                        let t2 = self.ty(l);
                        l.expect(b')');
                        K::Int(v & maskw(t2.width()))
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while l.peek() != b'(' {
                            l.word();
                        }
                        l.expect(b'(');
                        let t = self.ty(l);
                        let a = self.kint(l, &t);
                        l.expect(b',');
                        let t = self.ty(l);
                        let b = self.kint(l, &t);
                        l.expect(b')');
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        K::Int(r & maskw(t.width()))
                    }
                    _ => {
                        if w.starts_with("0x") {
                            return K::Int(u128::from_str_radix(&w[2..], 16).unwrap_or(0));
                        }
                        if w.contains('.') {
                            let f: f64 = w.parse().unwrap_or(0.0);
                            return K::Int(f.to_bits() as u128);
                        }
                        if w.is_empty() {
                            panic!("const at {}", l.rest());
                        }
                        K::Int(parse_int(w) & maskw(ty.width().max(1)))
                    }
                }
            }
        }
    }
    fn kint(&self, l: &mut Lex, ty: &Ty) -> u128 {
        match self.konst(l, ty) {
            K::Int(v) => v,
            _ => 0,
        }
    }
    fn val(&self, cx: &mut Ctx, l: &mut Lex, ty: &Ty) -> Opd {
        if l.peek() == b'%' {
            l.p += 1;
            let n = l.name();
            return Opd::R(cx.reg(&n));
        }
        match self.konst(l, ty) {
            K::Int(v) => Opd::C(v),
            k => Opd::K(Rc::new((k, ty.clone()))),
        }
    }
    fn tyval(&self, cx: &mut Ctx, l: &mut Lex) -> (Opd, Ty) {
        let t = self.ty(l);
        self.skip_attrs(l);
        let v = self.val(cx, l, &t);
        (v, t)
    }
    fn skip_attrs(&self, l: &mut Lex) {
        loop {
            let c = l.peek();
            if !(c.is_ascii_lowercase()) {
                if c == b'"' {
                    // string attribute
                    l.p += 1;
                    while l.s[l.p] != b'"' {
                        l.p += 1;
                    }
                    l.p += 1;
                    if l.eat(b'=') {
                        l.p += 1;
                        while l.s[l.p] != b'"' {
                            l.p += 1;
                        }
                        l.p += 1;
                    }
                    continue;
                }
                if c == b'#' {
                    l.p += 1;
                    l.uint();
                    continue;
                }
                return;
            }
            if c == b'c' && l.s.get(l.p + 1) == Some(&b'"') {
                return;
            }
            let save = l.p;
            let w = l.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "asm" => {
                    l.p = save;
                    return;
                }
                "align" | "addrspace" => {
                    if l.peek() == b'(' {
                        l.skip_parens();
                    } else {
                        l.uint();
                    }
                }
                _ => {
                    if l.p < l.s.len() && l.s[l.p] == b'(' {
                        l.skip_parens();
                    }
                }
            }
        }
    }

    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.fns[id as usize].parsed {
            return Some(f.clone());
        }
        let (s, e) = self.fns[id as usize].body?;
        let f = Rc::new(self.parse_func(id, s, e));
        self.fns[id as usize].parsed = Some(f.clone());
        Some(f)
    }
    fn parse_func(&self, id: u32, s: usize, e: usize) -> Func {
        let text = &self.src[s..e];
        let hdr_end = text.iter().position(|c| *c == b'\n').unwrap();
        let mut cx = Ctx { m: self, regs: HashMap::new(), blocks: HashMap::new() };
        let _ = cx.m;
        // header params
        let at = text.iter().position(|c| *c == b'@').unwrap();
        let mut l = Lex::new(&text[..hdr_end]);
        l.p = at + 1;
        l.name();
        l.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !l.eat(b')') {
            loop {
                if l.peek() == b'.' {
                    l.p += 3;
                } else {
                    let _t = self.ty(&mut l);
                    self.skip_attrs(&mut l);
                    if l.peek() == b'%' {
                        l.p += 1;
                        let n = l.name();
                        if n.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                        params.push(cx.reg(&n));
                    } else {
                        let n = format!("{}", unnamed);
                        unnamed += 1;
                        params.push(cx.reg(&n));
                    }
                }
                if !l.eat(b',') {
                    break;
                }
            }
        }
        // split into blocks
        let body = &text[hdr_end + 1..];
        let mut lines: Vec<&[u8]> = vec![];
        {
            // join multi-line constructs: switch [...] and landingpad clauses
            let mut i = 0;
            while i < body.len() {
                let eol = body[i..].iter().position(|c| *c == b'\n').map(|x| i + x).unwrap_or(body.len());
                lines.push(&body[i..eol]);
                i = eol + 1;
            }
        }
        struct RawBlock<'b> {
            name: String,
            lines: Vec<Vec<u8>>,
            _p: std::marker::PhantomData<&'b ()>,
        }
        let mut raw: Vec<RawBlock> = vec![];
        let mut i = 0;
        while i < lines.len() {
            let ln = lines[i];
            i += 1;
            if ln.is_empty() || ln[0] == b';' {
                continue;
            }
            if ln[0] != b' ' {
                // label
                let mut l = Lex::new(ln);
                let name = l.name();
                raw.push(RawBlock { name, lines: vec![], _p: Default::default() });
                continue;
            }
            let tr = trim(ln);
            if tr.is_empty() || tr[0] == b';' || tr.starts_with(b"#dbg_") {
                continue;
            }
            if raw.is_empty() {
                raw.push(RawBlock { name: format!("{}", unnamed), lines: vec![], _p: Default::default() });
            }
            let mut full = tr.to_vec();
            if tr.starts_with(b"switch ") && tr.ends_with(b"[") {
                while i < lines.len() {
                    let t2 = trim(lines[i]);
                    i += 1;
                    full.push(b' ');
                    full.extend_from_slice(t2);
                    if t2.starts_with(b"]") {
                        break;
                    }
                }
            } else if contains(tr, b"invoke ") && (tr.starts_with(b"invoke ") || contains(&tr[..tr.len().min(300)], b" = invoke ")) {
                // next line: to label %x unwind label %y
                if !contains(tr, b" to label %") {
                    let t2 = trim(lines[i]);
                    i += 1;
                    full.push(b' ');
                    full.extend_from_slice(t2);
                }
            } else if contains(&tr[..tr.len().min(300)], b" = landingpad") {
                while i < lines.len() {
                    let t2 = trim(lines[i]);
                    if t2.starts_with(b"catch") || t2.starts_with(b"filter") || t2.starts_with(b"cleanup") {
                        i += 1;
                    } else {
                        break;
                    }
                }
            }
            raw.last_mut().unwrap().lines.push(full);
        }
        for (i, b) in raw.iter().enumerate() {
            cx.blocks.insert(b.name.clone(), i as u32);
        }
        let mut blocks = vec![];
        for b in &raw {
            let mut blk = Block { phis: vec![], insts: vec![], name: b.name.clone() };
            for ln in &b.lines {
                let mut l = Lex::new(ln);
                let mut dst = None;
                if l.peek() == b'%' {
                    l.p += 1;
                    let n = l.name();
                    l.expect(b'=');
                    dst = Some(cx.reg(&n));
                }
                let op = l.word();
                if op == "phi" {
                    // fast-math flags unlikely
                    let t = self.ty(&mut l);
                    let mut inc = vec![];
                    loop {
                        l.expect(b'[');
                        let v = self.val(&mut cx, &mut l, &t);
                        l.expect(b',');
                        l.expect(b'%');
                        let n = l.name();
                        l.expect(b']');
                        inc.push((cx.block(&n), v));
                        if !l.eat(b',') || l.peek() == b'!' {
                            break;
                        }
                    }
                    blk.phis.push((dst.unwrap(), inc, t));
                    continue;
                }
                let ins = self.inst(&mut cx, &mut l, dst, op);
                if !matches!(ins, Inst::Nop) {
                    blk.insts.push(ins);
                }
            }
            blocks.push(blk);
        }
        Func { id, nregs: cx.regs.len() as u32, params, blocks }
    }

    fn inst(&self, cx: &mut Ctx, l: &mut Lex, dst: Option<u32>, op: &str) -> Inst {
        let bop = |o: &str| -> Option<BOp> {
            Some(match o {
                "add" => BOp::Add,
                "sub" => BOp::Sub,
                "mul" => BOp::Mul,
                "udiv" => BOp::UDiv,
                "sdiv" => BOp::SDiv,
                "urem" => BOp::URem,
                "srem" => BOp::SRem,
                "and" => BOp::And,
                "or" => BOp::Or,
                "xor" => BOp::Xor,
                "shl" => BOp::Shl,
                "lshr" => BOp::LShr,
                "ashr" => BOp::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bop(op) {
            while matches!(l.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                l.word();
            }
            let t = self.ty(l);
            let a = self.val(cx, l, &t);
            l.expect(b',');
            let c = self.val(cx, l, &t);
            return Inst::Bin(b, t, dst.unwrap(), a, c);
        }
        match op {
            "icmp" => {
                while matches!(l.peek_word(), "samesign") {
                    l.word();
                }
                let p = match l.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {}", x),
                };
                let t = self.ty(l);
                let a = self.val(cx, l, &t);
                l.expect(b',');
                let c = self.val(cx, l, &t);
                Inst::ICmp(p, t, dst.unwrap(), a, c)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(l.peek_word(), "nuw" | "nsw" | "nneg") {
                    l.word();
                }
                let t = self.ty(l);
                let a = self.val(cx, l, &t);
                l.eat_word("to");
                let t2 = self.ty(l);
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bit,
                    _ => {
                        if t2.width() < t.width() {
                            Cast::Trunc
                        } else if t2.width() > t.width() {
                            Cast::ZExt
                        } else {
                            return Inst::Copy(dst.unwrap(), a, t);
                        }
                    }
                };
                Inst::Cast(k, t, t2, dst.unwrap(), a)
            }
            "load" => {
                while matches!(l.peek_word(), "atomic" | "volatile") {
                    l.word();
                }
                let t = self.ty(l);
                l.expect(b',');
                let (p, _) = self.tyval(cx, l);
                Inst::Load(t, dst.unwrap(), p)
            }
            "store" => {
                while matches!(l.peek_word(), "atomic" | "volatile") {
                    l.word();
                }
                let (v, t) = self.tyval(cx, l);
                l.expect(b',');
                let (p, _) = self.tyval(cx, l);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while matches!(l.peek_word(), "inbounds" | "nuw" | "nusw" | "nsw") {
                    l.word();
                }
                let t = self.ty(l);
                l.expect(b',');
                let (b, bt) = self.tyval(cx, l);
                if bt != Ty::Ptr {
                    return Inst::Unsupported("vector gep".into());
                }
                let mut off = 0i64;
                let mut dyns = vec![];
                let mut cur = t;
                let mut first = true;
                while l.eat(b',') {
                    if l.peek() == b'!' {
                        break;
                    }
                    let (iv, it) = self.tyval(cx, l);
                    let stride;
                    if first {
                        stride = cur.size();
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                if let Opd::C(i) = iv {
                                    off += cur.field_off(i as u64) as i64;
                                    cur = cur.elem(i as u64).clone();
                                    continue;
                                }
                                panic!("dynamic struct gep");
                            }
                            _ => {
                                stride = cur.elem(0).size();
                                cur = cur.elem(0).clone();
                            }
                        }
                    }
                    first = false;
                    match iv {
                        Opd::C(i) => {
                            let i = crate::expr::sext(i & maskw(it.width()), it.width()) as i64;
                            off = off.wrapping_add(i.wrapping_mul(stride as i64));
                        }
                        v => dyns.push((v, it.width(), stride)),
                    }
                }
                Inst::Gep(dst.unwrap(), b, off, dyns)
            }
            "alloca" => {
                let t = self.ty(l);
                let mut n = 1;
                if l.eat(b',') {
                    if l.peek() == b'i' {
                        let (v, _) = self.tyval(cx, l);
                        match v {
                            Opd::C(k) => n = k as u64,
                            _ => return Inst::Unsupported("dynamic alloca".into()),
                        }
                    }
                }
                Inst::Alloca(dst.unwrap(), t.size() * n)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" {
                    l.eat_word("call");
                }
                // cc, ret attrs
                loop {
                    let c = l.peek();
                    if !c.is_ascii_lowercase() {
                        break;
                    }
                    let save = l.p;
                    let w = l.word();
                    if w == "void" || w == "ptr" || w == "float" || w == "double" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())) || w == "label" || w == "metadata" || w == "token" {
                        l.p = save;
                        break;
                    }
                    if w == "align" {
                        l.uint();
                        continue;
                    }
                    if l.p < l.s.len() && l.s[l.p] == b'(' {
                        l.skip_parens();
                    }
                }
                let ret = self.ty(l);
                if l.peek() == b'(' {
                    // function type
                    l.skip_parens();
                }
                let callee = if l.peek() == b'@' {
                    l.p += 1;
                    let n = l.name();
                    let n2 = self.aliases.get(&n).cloned().unwrap_or(n);
                    match self.fn_by_name.get(&n2) {
                        Some(&f) => Callee::Fn(f),
                        None => panic!("callee {}", n2),
                    }
                } else if l.peek() == b'%' {
                    l.p += 1;
                    let n = l.name();
                    Callee::Ind(Opd::R(cx.reg(&n)))
                } else {
                    if l.peek_word() == "asm" {
                        // asm [flags] "..." , "..."( args )
                        l.word();
                        while l.peek().is_ascii_lowercase() {
                            l.word();
                        }
                        let mut text = String::new();
                        for k in 0..2 {
                            l.expect(b'"');
                            let from = l.p;
                            while l.s[l.p] != b'"' {
                                l.p += 1;
                            }
                            if k == 0 {
                                text = String::from_utf8_lossy(&l.s[from..l.p]).into_owned();
                            }
                            l.p += 1;
                            l.eat(b',');
                        }
                        Callee::Asm(text)
                    } else {
                        let k = self.kint(l, &Ty::Ptr);
                        Callee::Ind(Opd::C(k))
                    }
                };
                l.expect(b'(');
                let mut args = vec![];
                if !l.eat(b')') {
                    loop {
                        let t = self.ty(l);
                        if t == Ty::Other {
                            // metadata argument: skip to , or ) at depth 0
                            let mut d = 0;
                            loop {
                                match l.peek() {
                                    b'(' | b'{' | b'[' => {
                                        d += 1;
                                        l.p += 1;
                                    }
                                    b')' | b'}' | b']' if d > 0 => {
                                        d -= 1;
                                        l.p += 1;
                                    }
                                    b')' | b',' if d == 0 => break,
                                    0 => break,
                                    _ => l.p += 1,
                                }
                            }
                            args.push((Opd::C(0), Ty::Other));
                        } else {
                            self.skip_attrs(l);
                            let v = self.val(cx, l, &t);
                            args.push((v, t));
                        }
                        if !l.eat(b',') {
                            break;
                        }
                    }
                    l.expect(b')');
                }
                let mut normal = None;
                if op == "invoke" {
                    let r = l.rest_from();
                    let p = find(r, b"to label %").expect("invoke label");
                    let mut l2 = Lex::new(r);
                    l2.p = p + b"to label %".len();
                    let n = l2.name();
                    normal = Some(cx.block(&n));
                }
                if let Callee::Fn(f) = callee {
                    let n = &self.fns[f as usize].sym;
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.donothing") || n.starts_with("llvm.invariant") {
                        return match normal {
                            Some(b) => Inst::Br(b),
                            None => Inst::Nop,
                        };
                    }
                }
                Inst::Call { dst, ret, callee, args, normal }
            }
            "br" => {
                if l.eat_word("label") {
                    l.expect(b'%');
                    let n = l.name();
                    return Inst::Br(cx.block(&n));
                }
                let (c, _) = self.tyval(cx, l);
                l.expect(b',');
                l.eat_word("label");
                l.expect(b'%');
                let a = l.name();
                l.expect(b',');
                l.eat_word("label");
                l.expect(b'%');
                let b = l.name();
                Inst::CondBr(c, cx.block(&a), cx.block(&b))
            }
            "switch" => {
                let (c, t) = self.tyval(cx, l);
                l.expect(b',');
                l.eat_word("label");
                l.expect(b'%');
                let d = l.name();
                let d = cx.block(&d);
                l.expect(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let it = self.ty(l);
                    let k = self.kint(l, &it);
                    l.expect(b',');
                    l.eat_word("label");
                    l.expect(b'%');
                    let n = l.name();
                    cases.push((k, cx.block(&n)));
                }
                Inst::Switch(c, t.width(), d, cases)
            }
            "ret" => {
                let t = self.ty(l);
                if t == Ty::Void {
                    return Inst::Ret(None);
                }
                let v = self.val(cx, l, &t);
                Inst::Ret(Some((v, t)))
            }
            "unreachable" | "resume" => Inst::Unreachable,
            "landingpad" => Inst::Nop,
            "select" => {
                let (c, ct) = self.tyval(cx, l);
                l.expect(b',');
                let (a, t) = self.tyval(cx, l);
                l.expect(b',');
                let (b, _) = self.tyval(cx, l);
                Inst::Select(dst.unwrap(), c, ct, a, b, t)
            }
            "extractvalue" => {
                let (a, _) = self.tyval(cx, l);
                let mut ix = vec![];
                while l.eat(b',') {
                    if l.peek() == b'!' {
                        break;
                    }
                    ix.push(l.uint() as u32);
                }
                Inst::ExtractValue(dst.unwrap(), a, ix)
            }
            "insertvalue" => {
                let (a, at) = self.tyval(cx, l);
                l.expect(b',');
                let (b, _) = self.tyval(cx, l);
                let mut ix = vec![];
                while l.eat(b',') {
                    if l.peek() == b'!' {
                        break;
                    }
                    ix.push(l.uint() as u32);
                }
                Inst::InsertValue(dst.unwrap(), a, at, b, ix)
            }
            "extractelement" => {
                let (a, t) = self.tyval(cx, l);
                l.expect(b',');
                let (i, _) = self.tyval(cx, l);
                Inst::ExtractElement(dst.unwrap(), a, t, i)
            }
            "insertelement" => {
                let (a, t) = self.tyval(cx, l);
                l.expect(b',');
                let (v, _) = self.tyval(cx, l);
                l.expect(b',');
                let (i, _) = self.tyval(cx, l);
                Inst::InsertElement(dst.unwrap(), a, t, v, i)
            }
            "shufflevector" => {
                let (a, t) = self.tyval(cx, l);
                l.expect(b',');
                let (b, _) = self.tyval(cx, l);
                l.expect(b',');
                let mt = self.ty(l);
                let mk = self.konst(l, &mt);
                let n = mt.nelem() as usize;
                let idx: Vec<u32> = match mk {
                    K::Agg(v) => v
                        .iter()
                        .map(|k| match k {
                            K::Int(i) => *i as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => vec![0; n],
                };
                Inst::Shuffle(dst.unwrap(), a, b, t, idx)
            }
            "atomicrmw" => {
                l.eat_word("volatile");
                let o = l.word().to_string();
                let (p, _) = self.tyval(cx, l);
                l.expect(b',');
                let (v, t) = self.tyval(cx, l);
                Inst::Rmw(o, t, dst.unwrap_or(u32::MAX), p, v)
            }
            "cmpxchg" => {
                while matches!(l.peek_word(), "weak" | "volatile") {
                    l.word();
                }
                let (p, _) = self.tyval(cx, l);
                l.expect(b',');
                let (a, t) = self.tyval(cx, l);
                l.expect(b',');
                let (b, _) = self.tyval(cx, l);
                Inst::CmpXchg(t, dst.unwrap_or(u32::MAX), p, a, b)
            }
            "fence" => Inst::Nop,
            "freeze" => {
                let (a, t) = self.tyval(cx, l);
                Inst::Copy(dst.unwrap(), a, t)
            }
            o => Inst::Unsupported(o.to_string()),
        }
    }
}

impl<'a> Lex<'a> {
    fn rest_from(&self) -> &'a [u8] {
        &self.s[self.p..]
    }
}

fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && (s[0] == b' ' || s[0] == b'\t') {
        s = &s[1..];
    }
    while !s.is_empty() && (s[s.len() - 1] == b' ' || s[s.len() - 1] == b'\r') {
        s = &s[..s.len() - 1];
    }
    s
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    find(h, n).is_some()
}
