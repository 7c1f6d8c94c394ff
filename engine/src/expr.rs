//! Hash-consed bit-vector expressions (1..=128 bits) over byte variables.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Not(E),
    Extract(E, u16),
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
    /// table id, index expression
    Table(u32, E),
    /// variable, mask id: variable's value is in the set
    InSet(u32, u32),
}

pub type Mask = [u64; 4];
pub const FULL: Mask = [!0; 4];

pub fn mask_has(m: &Mask, v: u8) -> bool {
    m[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn mask_set(m: &mut Mask, v: u8) {
    m[(v >> 6) as usize] |= 1 << (v & 63)
}
pub fn mask_and(a: &Mask, b: &Mask) -> Mask {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn mask_or(a: &Mask, b: &Mask) -> Mask {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn mask_xor(a: &Mask, b: &Mask) -> Mask {
    [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]]
}
pub fn mask_not(a: &Mask) -> Mask {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn mask_empty(a: &Mask) -> bool {
    *a == [0; 4]
}
pub fn mask_count(a: &Mask) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn mask_first(a: &Mask) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    panic!("empty mask")
}

pub struct Table {
    pub vals: Vec<u128>,
    pub w: u16,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    /// support-set id
    pub sup: Vec<u32>,
    map: HashMap<(Node, u16), E>,
    pub sups: Vec<Rc<Vec<u32>>>,
    sup_map: HashMap<Rc<Vec<u32>>, u32>,
    union_memo: HashMap<(u32, u32), u32>,
    pub masks: Vec<Mask>,
    mask_map: HashMap<Mask, u32>,
    pub tables: Vec<Table>,
    table_map: HashMap<(Vec<u128>, u16), u32>,
    onevar: HashMap<E, Rc<Vec<u128>>>,
    // evaluator scratch
    ev_epoch: Vec<u32>,
    ev_val: Vec<u128>,
    epoch: u32,
    pub t: E,
    pub f: E,
}

pub fn maskw(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn ev_bin(op: Op, a: u128, b: u128, w: u16, bw: u16) -> u128 {
    // w: width of operands; bw width of b (for concat)
    let m = maskw(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128 & m
        }
        Op::Concat => (a << bw) | b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            width: vec![],
            sup: vec![],
            map: HashMap::new(),
            sups: vec![],
            sup_map: HashMap::new(),
            union_memo: HashMap::new(),
            masks: vec![],
            mask_map: HashMap::new(),
            tables: vec![],
            table_map: HashMap::new(),
            onevar: HashMap::new(),
            ev_epoch: vec![],
            ev_val: vec![],
            epoch: 0,
            t: 0,
            f: 0,
        };
        a.sup_id(vec![]);
        // id 0 is reserved (means "concrete" in memory shadow)
        a.nodes.push(Node::Const(0));
        a.width.push(8);
        a.sup.push(0);
        a.f = a.konst(0, 1);
        a.t = a.konst(1, 1);
        a
    }
    fn sup_id(&mut self, v: Vec<u32>) -> u32 {
        let rc = Rc::new(v);
        if let Some(&i) = self.sup_map.get(&rc) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(rc.clone());
        self.sup_map.insert(rc, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.union_memo.get(&k) {
            return r;
        }
        let (x, y) = (self.sups[a as usize].clone(), self.sups[b as usize].clone());
        let mut out = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                out.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                out.push(y[j]);
                j += 1;
            } else {
                out.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.sup_id(out);
        self.union_memo.insert(k, r);
        r
    }
    pub fn support(&self, e: E) -> Rc<Vec<u32>> {
        self.sups[self.sup[e as usize] as usize].clone()
    }
    pub fn w(&self, e: E) -> u16 {
        self.width[e as usize]
    }
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    fn raw(&mut self, n: Node, w: u16) -> E {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let sup = match n {
            Node::Const(_) => 0,
            Node::Var(v) | Node::InSet(v, _) => self.sup_id(vec![v]),
            Node::Bin(_, a, b) => self.union(self.sup[a as usize], self.sup[b as usize]),
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) | Node::Table(_, a) => self.sup[a as usize],
            Node::Ite(c, a, b) => {
                let s = self.union(self.sup[a as usize], self.sup[b as usize]);
                self.union(s, self.sup[c as usize])
            }
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.width.push(w);
        self.sup.push(sup);
        self.map.insert((n, w), e);
        e
    }
    /// Intern a node, canonicalising one-variable predicates to sets.
    fn mk(&mut self, n: Node, w: u16) -> E {
        let e = self.raw(n, w);
        if w == 1 && !matches!(n, Node::InSet(..) | Node::Const(_)) {
            let s = self.support(e);
            if s.len() == 1 {
                let tab = self.one_var_table(e);
                let mut m = [0u64; 4];
                for i in 0..256 {
                    if tab[i] != 0 {
                        mask_set(&mut m, i as u8);
                    }
                }
                let r = self.in_set(s[0], m);
                return r;
            }
        }
        e
    }
    fn one_var_table(&mut self, e: E) -> Rc<Vec<u128>> {
        if let Some(t) = self.onevar.get(&e) {
            return t.clone();
        }
        let w = self.w(e);
        let out: Vec<u128> = match self.node(e) {
            Node::Const(c) => vec![c; 256],
            Node::Var(_) => (0..256).collect(),
            Node::InSet(_, m) => {
                let m = self.masks[m as usize];
                (0..256).map(|i| mask_has(&m, i as u8) as u128).collect()
            }
            Node::Bin(op, a, b) => {
                let (wa, wb) = (self.w(a), self.w(b));
                let (ta, tb) = (self.one_var_table(a), self.one_var_table(b));
                (0..256).map(|i| ev_bin(op, ta[i], tb[i], wa, wb)).collect()
            }
            Node::Not(a) => {
                let ta = self.one_var_table(a);
                let m = maskw(w);
                ta.iter().map(|x| !x & m).collect()
            }
            Node::Extract(a, lo) => {
                let ta = self.one_var_table(a);
                let m = maskw(w);
                ta.iter().map(|x| (x >> lo) & m).collect()
            }
            Node::ZExt(a) => return self.one_var_table(a),
            Node::SExt(a) => {
                let wa = self.w(a);
                let ta = self.one_var_table(a);
                let m = maskw(w);
                ta.iter().map(|x| sext(*x, wa) as u128 & m).collect()
            }
            Node::Ite(c, a, b) => {
                let (tc, ta, tb) = (self.one_var_table(c), self.one_var_table(a), self.one_var_table(b));
                (0..256).map(|i| if tc[i] != 0 { ta[i] } else { tb[i] }).collect()
            }
            Node::Table(t, i) => {
                let ti = self.one_var_table(i);
                let tab = &self.tables[t as usize].vals;
                ti.iter().map(|x| tab.get(*x as usize).copied().unwrap_or(0)).collect()
            }
        };
        let r = Rc::new(out);
        self.onevar.insert(e, r.clone());
        r
    }
    pub fn konst(&mut self, v: u128, w: u16) -> E {
        self.raw(Node::Const(v & maskw(w)), w)
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.node(e) {
            Some(c)
        } else {
            None
        }
    }
    pub fn var(&mut self, v: u32) -> E {
        self.raw(Node::Var(v), 8)
    }
    pub fn mask_id(&mut self, m: Mask) -> u32 {
        if let Some(&i) = self.mask_map.get(&m) {
            return i;
        }
        let i = self.masks.len() as u32;
        self.masks.push(m);
        self.mask_map.insert(m, i);
        i
    }
    pub fn in_set(&mut self, v: u32, m: Mask) -> E {
        if mask_empty(&m) {
            return self.f;
        }
        if m == FULL {
            return self.t;
        }
        let id = self.mask_id(m);
        self.raw(Node::InSet(v, id), 1)
    }
    pub fn table(&mut self, vals: Vec<u128>, w: u16, idx: E) -> E {
        if let Some(c) = self.as_const(idx) {
            let v = vals.get(c as usize).copied().unwrap_or(0);
            return self.konst(v, w);
        }
        let (mut vals, mut idx) = (vals, idx);
        if let Node::ZExt(x) = self.node(idx) {
            if self.w(x) <= 12 {
                idx = x;
            }
        }
        let wi = self.w(idx);
        if wi <= 12 {
            vals.resize(1 << wi, 0);
        }
        if let Some((t2, j)) = self.full_table(idx) {
            // table of a table
            let inner = self.tables[t2 as usize].vals.clone();
            let vals2 = inner.iter().map(|x| vals.get(*x as usize).copied().unwrap_or(0)).collect();
            return self.table(vals2, w, j);
        }
        if vals.iter().all(|x| *x == vals[0]) {
            return self.konst(vals[0], w);
        }
        if wi <= 12 {
            let m = maskw(w);
            if vals.iter().enumerate().all(|(i, x)| *x == i as u128 & m) {
                return if w >= wi { self.zext(idx, w) } else { self.extract(idx, 0, w) };
            }
        }
        let k = (vals, w);
        let id = if let Some(&i) = self.table_map.get(&k) {
            i
        } else {
            let i = self.tables.len() as u32;
            self.tables.push(Table { vals: k.0.clone(), w });
            self.table_map.insert(k, i);
            i
        };
        self.mk(Node::Table(id, idx), w)
    }
    /// A table lookup whose index cannot leave the table.
    fn full_table(&self, e: E) -> Option<(u32, E)> {
        if let Node::Table(t, i) = self.node(e) {
            let wi = self.w(i);
            if wi <= 12 && self.tables[t as usize].vals.len() == 1 << wi {
                return Some((t, i));
            }
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some((t, i)) = self.full_table(a) {
            let m = maskw(w);
            let vals = self.tables[t as usize].vals.iter().map(|x| !x & m).collect();
            return self.table(vals, w, i);
        }
        match self.node(a) {
            Node::Const(c) => return self.konst(!c, w),
            Node::Not(x) => return x,
            Node::InSet(v, m) => {
                let m = mask_not(&self.masks[m as usize]);
                return self.in_set(v, m);
            }
            _ => {}
        }
        if w == 1 {
            match self.node(a) {
                Node::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
                Node::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
                Node::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
                Node::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
                _ => {}
            }
        }
        self.mk(Node::Not(a), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa);
        if lo == 0 && w == wa {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => return self.konst(c >> lo, w),
            Node::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            Node::Bin(Op::Concat, x, y) => {
                let wy = self.w(y);
                if lo + w <= wy {
                    return self.extract(y, lo, w);
                }
                if lo >= wy {
                    return self.extract(x, lo - wy, w);
                }
                let h = self.extract(x, 0, lo + w - wy);
                let l = self.extract(y, lo, wy - lo);
                return self.concat(h, l);
            }
            Node::ZExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo >= wx {
                    return self.konst(0, w);
                }
                let l = self.extract(x, lo, wx - lo);
                return self.zext(l, w);
            }
            Node::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.bin(op, x, y);
            }
            Node::Not(x) => {
                let x = self.extract(x, lo, w);
                return self.not(x);
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                return self.bin(op, x, y);
            }
            Node::Ite(c, x, y) => {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let x = self.extract(x, lo, w);
                    let y = self.extract(y, lo, w);
                    return self.ite(c, x, y);
                }
            }
            Node::Table(t, i) => {
                let m = maskw(w);
                let vals = self.tables[t as usize].vals.iter().map(|x| (x >> lo) & m).collect();
                return self.table(vals, w, i);
            }
            _ => {}
        }
        self.mk(Node::Extract(a, lo), w)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(w > wa);
        if let Some((t, i)) = self.full_table(a) {
            let vals = self.tables[t as usize].vals.clone();
            return self.table(vals, w, i);
        }
        match self.node(a) {
            Node::Const(c) => return self.konst(c, w),
            Node::ZExt(x) => return self.zext(x, w),
            Node::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.mk(Node::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => return self.konst(sext(c, wa) as u128, w),
            Node::ZExt(x) => return self.zext(x, w),
            Node::SExt(x) => return self.sext(x, w),
            _ => {}
        }
        if wa == 1 {
            let x = self.konst(!0, w);
            let y = self.konst(0, w);
            return self.ite(a, x, y);
        }
        self.mk(Node::SExt(a), w)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        debug_assert!(w <= 128);
        match (self.node(a), self.node(b)) {
            (Node::Const(x), Node::Const(y)) => return self.konst(x << wb | y, w),
            (Node::Const(0), _) => return self.zext(b, w),
            (Node::Extract(x, l1), Node::Extract(y, l2)) if x == y && l1 == l2 + wb => return self.extract(x, l2, w),
            (Node::Extract(x, l1), Node::Bin(Op::Concat, y, z)) => {
                if let Node::Extract(y2, l2) = self.node(y) {
                    if y2 == x && l1 == l2 + self.w(y) {
                        let wy = self.w(y);
                        let h = self.extract(x, l2, wa + wy);
                        return self.concat(h, z);
                    }
                }
            }
            (Node::Extract(x, l1), _) if x == b && l1 == wb && self.w(x) == w => return x,
            // concat(extract(x, wb..), x[0..wb]) where low part simplified
            (_, Node::ZExt(_)) => {}
            _ => {}
        }
        // re-associate to the right so that reassembly of split words works
        if let Node::Bin(Op::Concat, x, y) = self.node(a) {
            let r = self.concat(y, b);
            return self.concat(x, r);
        }
        // high part of a zext'ed value split into bytes: concat(0.., low) handled by zext above.
        if let (Node::Extract(x, l1), _) = (self.node(a), 0) {
            // b == extract of same x that simplified (e.g. through zext/concat)?
            if l1 >= wb {
                let low = self.extract(x, l1 - wb, wb);
                if low == b {
                    return self.extract(x, l1 - wb, w);
                }
            }
        }
        self.mk(Node::Bin(Op::Concat, a, b), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Not(x) = self.node(c) {
            return self.ite(x, b, a);
        }
        if let Node::Ite(c2, x, y) = self.node(b) {
            if x == a {
                let o = self.or(c, c2);
                return self.ite(o, a, y);
            }
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        if let Node::Ite(c2, x, y) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
            if y == b {
                let o = self.and(c, c2);
                return self.ite(o, x, b);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        if op == Op::Concat {
            return self.concat(a, b);
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b), "{:?} {} {}", op, w, self.w(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(ev_bin(op, x, y, w, w), rw);
        }
        // constants to the right for commutative operators
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = maskw(w);
        if let (Some((t, i)), Some(y)) = (self.full_table(a), cb) {
            let vals = self.tables[t as usize].vals.iter().map(|x| ev_bin(op, *x, y, w, w) & maskw(rw)).collect();
            return self.table(vals, rw, i);
        }
        if let (Some(x), Some((t, i))) = (ca, self.full_table(b)) {
            let vals = self.tables[t as usize].vals.iter().map(|y| ev_bin(op, x, *y, w, w) & maskw(rw)).collect();
            return self.table(vals, rw, i);
        }
        if let (Some((t, i)), Some((u, j))) = (self.full_table(a), self.full_table(b)) {
            if i == j {
                let vals = self.tables[t as usize].vals.iter().zip(self.tables[u as usize].vals.iter()).map(|(x, y)| ev_bin(op, *x, *y, w, w) & maskw(rw)).collect();
                return self.table(vals, rw, i);
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let (Some(y), Node::Bin(Op::Add, p, q)) = (cb, self.node(a)) {
                    if let Some(z) = self.as_const(q) {
                        let k = self.konst(y.wrapping_add(z), w);
                        return self.bin(Op::Add, p, k);
                    }
                }
                // (x + c) + y -> (x + y) + c
                if cb.is_none() {
                    if let Node::Bin(Op::Add, p, q) = self.node(a) {
                        if self.as_const(q).is_some() {
                            let s = self.bin(Op::Add, p, b);
                            return self.bin(Op::Add, s, q);
                        }
                    }
                    if let Node::Bin(Op::Add, p, q) = self.node(b) {
                        if self.as_const(q).is_some() {
                            let s = self.bin(Op::Add, a, p);
                            return self.bin(Op::Add, s, q);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(y) = cb {
                    let k = self.konst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                // (x + y) - x
                if let Node::Bin(Op::Add, p, q) = self.node(a) {
                    if p == b {
                        return q;
                    }
                    if q == b {
                        return p;
                    }
                    if self.as_const(q).is_some() {
                        let s = self.bin(Op::Sub, p, b);
                        return self.bin(Op::Add, s, q);
                    }
                }
                if let Node::Bin(Op::Add, p, q) = self.node(b) {
                    if let Some(z) = self.as_const(q) {
                        let s = self.bin(Op::Sub, a, p);
                        let k = self.konst(z.wrapping_neg(), w);
                        return self.bin(Op::Add, s, k);
                    }
                }
            }
            Op::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return self.konst(0, w);
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                    if let Node::ZExt(x) = self.node(a) {
                        let wx = self.w(x);
                        if y > maskw(wx) {
                            return self.konst(0, w);
                        }
                        if y != 0 {
                            let k = self.konst(y, wx);
                            let d = self.bin(Op::UDiv, x, k);
                            return self.zext(d, w);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                    if let Node::ZExt(x) = self.node(a) {
                        let wx = self.w(x);
                        if y > maskw(wx) {
                            return a;
                        }
                        if y != 0 {
                            let k = self.konst(y, wx);
                            let d = self.bin(Op::URem, x, k);
                            return self.zext(d, w);
                        }
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    if let Node::Bin(Op::And, p, q) = self.node(a) {
                        if let Some(z) = self.as_const(q) {
                            let k = self.konst(y & z, w);
                            return self.bin(Op::And, p, k);
                        }
                    }
                    // low mask -> zext(extract)
                    if (y + 1) & y == 0 {
                        let n = y.count_ones() as u16;
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    // contiguous mask
                    let tz = y.trailing_zeros() as u16;
                    let sh = y >> tz;
                    if (sh + 1) & sh == 0 {
                        let n = sh.count_ones() as u16;
                        let x = self.extract(a, tz, n);
                        let z = self.konst(0, tz);
                        let c = self.concat(x, z);
                        return self.zext(c, w);
                    }
                    if let Node::ZExt(x) = self.node(a) {
                        let wx = self.w(x);
                        let k = self.konst(y, wx);
                        let r = self.bin(Op::And, x, k);
                        return self.zext(r, w);
                    }
                } else if w == 1 {
                    if let (Node::InSet(v1, m1), Node::InSet(v2, m2)) = (self.node(a), self.node(b)) {
                        if v1 == v2 {
                            let mm = mask_and(&self.masks[m1 as usize], &self.masks[m2 as usize]);
                            return self.in_set(v1, mm);
                        }
                    }
                    if self.not(a) == b {
                        return self.f;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                } else if w == 1 {
                    if let (Node::InSet(v1, m1), Node::InSet(v2, m2)) = (self.node(a), self.node(b)) {
                        if v1 == v2 {
                            let mm = mask_or(&self.masks[m1 as usize], &self.masks[m2 as usize]);
                            return self.in_set(v1, mm);
                        }
                    }
                    if self.not(a) == b {
                        return self.t;
                    }
                }
                if w > 1 {
                    if let Some(r) = self.or_disjoint(a, b) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return self.not(a);
                    }
                    if let Node::Bin(Op::Xor, p, q) = self.node(a) {
                        if let Some(z) = self.as_const(q) {
                            let k = self.konst(y ^ z, w);
                            return self.bin(Op::Xor, p, k);
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let y = y as u16;
                    let x = self.extract(a, 0, w - y);
                    let z = self.konst(0, y);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let y = y as u16;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = if y >= w as u128 { w - 1 } else { y as u16 };
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.t;
                }
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match self.node(a) {
                        Node::ZExt(x) => {
                            let wx = self.w(x);
                            if y > maskw(wx) {
                                return self.f;
                            }
                            let k = self.konst(y, wx);
                            return self.eq(x, k);
                        }
                        Node::SExt(x) => {
                            let wx = self.w(x);
                            let t = y & maskw(wx);
                            if sext(t, wx) as u128 & m != y {
                                return self.f;
                            }
                            let k = self.konst(t, wx);
                            return self.eq(x, k);
                        }
                        Node::Bin(Op::Concat, p, q) => {
                            let (wp, wq) = (self.w(p), self.w(q));
                            let k1 = self.konst(y >> wq, wp);
                            let k2 = self.konst(y, wq);
                            let e1 = self.eq(p, k1);
                            if e1 == self.f {
                                return e1;
                            }
                            let e2 = self.eq(q, k2);
                            return self.and(e1, e2);
                        }
                        Node::Bin(Op::Add, p, q) if self.as_const(q).is_some() => {
                            let z = self.as_const(q).unwrap();
                            let k = self.konst(y.wrapping_sub(z), w);
                            return self.eq(p, k);
                        }
                        Node::Bin(Op::Xor, p, q) if self.as_const(q).is_some() => {
                            let z = self.as_const(q).unwrap();
                            let k = self.konst(y ^ z, w);
                            return self.eq(p, k);
                        }
                        Node::Bin(Op::Xor, p, q) if y == 0 => return self.eq(p, q),
                        Node::Bin(Op::Sub, p, q) if y == 0 => return self.eq(p, q),
                        Node::Bin(Op::Or, p, q) if y == 0 => {
                            let e1 = self.eq(p, b);
                            let e2 = self.eq(q, b);
                            return self.and(e1, e2);
                        }
                        Node::Not(x) => {
                            let k = self.konst(!y, w);
                            return self.eq(x, k);
                        }
                        Node::Ite(c, p, q) => {
                            let (cp, cq) = (self.as_const(p), self.as_const(q));
                            if cp.is_some() || cq.is_some() {
                                let e1 = self.eq(p, b);
                                let e2 = self.eq(q, b);
                                return self.ite(c, e1, e2);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.node(a), self.node(b)) {
                        (Node::ZExt(p), Node::ZExt(q)) => {
                            let (wp, wq) = (self.w(p), self.w(q));
                            let wm = wp.max(wq);
                            let p = self.zext(p, wm);
                            let q = self.zext(q, wm);
                            if wm < w {
                                return self.eq(p, q);
                            }
                        }
                        (Node::Bin(Op::Concat, p, q), Node::Bin(Op::Concat, r, s)) if self.w(q) == self.w(s) => {
                            let e1 = self.eq(p, r);
                            let e2 = self.eq(q, s);
                            return self.and(e1, e2);
                        }
                        (Node::Bin(Op::Add, p, q), Node::Bin(Op::Add, r, s)) if q == s => return self.eq(p, r),
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.f;
                }
                if cb == Some(0) {
                    return self.f;
                }
                if ca == Some(m) {
                    return self.f;
                }
                if cb == Some(1) {
                    let z = self.konst(0, w);
                    return self.eq(a, z);
                }
                if ca == Some(0) {
                    let e = self.eq(b, a);
                    return self.not(e);
                }
                if let Some(r) = self.cmp_narrow(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.t;
                }
                if ca == Some(0) || cb == Some(m) {
                    return self.t;
                }
                if cb == Some(0) {
                    return self.eq(a, b);
                }
                if let Some(y) = cb {
                    let k = self.konst(y + 1, w);
                    return self.bin(Op::Ult, a, k);
                }
                if let Some(x) = ca {
                    let k = self.konst(x - 1, w);
                    return self.bin(Op::Ult, k, b);
                }
                if let Some(r) = self.cmp_narrow(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Slt => {
                if a == b {
                    return self.f;
                }
                let hi = 1u128 << (w - 1);
                if w > 1 {
                    if self.nonneg(a) && cb.map_or(false, |y| y & hi == 0) || self.nonneg(b) && ca.map_or(false, |x| x & hi == 0) || self.nonneg(a) && self.nonneg(b) {
                        return self.bin(Op::Ult, a, b);
                    }
                    if self.nonneg(a) && cb.map_or(false, |y| y & hi != 0) {
                        return self.f;
                    }
                    if self.nonneg(b) && ca.map_or(false, |y| y & hi != 0) {
                        return self.t;
                    }
                }
                if cb == Some(0) && w > 1 {
                    return self.extract(a, w - 1, 1);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.t;
                }
                let n = self.bin(Op::Slt, b, a);
                if self.as_const(n).is_some() || !matches!(self.node(n), Node::Bin(Op::Slt, ..)) {
                    return self.not(n);
                }
            }
            _ => {}
        }
        self.mk(Node::Bin(op, a, b), rw)
    }
    fn nonneg(&self, e: E) -> bool {
        match self.node(e) {
            Node::ZExt(_) => true,
            Node::Const(c) => c >> (self.w(e) - 1) & 1 == 0,
            Node::Ite(_, a, b) => self.nonneg(a) && self.nonneg(b),
            Node::Bin(Op::And, a, b) => self.nonneg(a) || self.nonneg(b),
            _ => false,
        }
    }
    /// or of values with disjoint bits, as produced by byte assembly
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        // concat(x, 0_k) | zext(y) where width(y) <= k  => concat(x, zext(y,k))
        let try1 = |s: &mut Self, a: E, b: E| -> Option<E> {
            let w = s.w(a);
            let (hi, k) = s.split_low_zero(a)?;
            let lowz = match s.node(b) {
                Node::ZExt(y) if s.w(y) <= k => Some(y),
                Node::Const(c) if c <= maskw(k) => None,
                _ => return None,
            };
            let low = match lowz {
                Some(y) => s.zext(y, k),
                None => {
                    let c = s.as_const(b).unwrap();
                    s.konst(c, k)
                }
            };
            let _ = w;
            Some(s.concat(hi, low))
        };
        if let Some(r) = try1(self, a, b) {
            return Some(r);
        }
        try1(self, b, a)
    }
    /// e == concat(hi, 0_k) with k>0
    fn split_low_zero(&mut self, e: E) -> Option<(E, u16)> {
        match self.node(e) {
            Node::Bin(Op::Concat, h, l) => {
                if self.as_const(l) == Some(0) {
                    return Some((h, self.w(l)));
                }
                let (m, k) = self.split_low_zero(l)?;
                let hh = self.concat(h, m);
                Some((hh, k))
            }
            Node::ZExt(x) => {
                let (h, k) = self.split_low_zero(x)?;
                let wz = self.w(e) - k;
                let hh = self.zext(h, wz);
                Some((hh, k))
            }
            _ => None,
        }
    }
    fn cmp_narrow(&mut self, op: Op, a: E, b: E, ca: Option<u128>, cb: Option<u128>) -> Option<E> {
        // Ult/Ule only
        match (self.node(a), self.node(b)) {
            (Node::ZExt(p), Node::ZExt(q)) => {
                let wm = self.w(p).max(self.w(q));
                let p = self.zext(p, wm);
                let q = self.zext(q, wm);
                return Some(self.bin(op, p, q));
            }
            (Node::ZExt(p), Node::Const(c)) => {
                let wp = self.w(p);
                if c > maskw(wp) {
                    return Some(self.t);
                }
                let k = self.konst(c, wp);
                return Some(self.bin(op, p, k));
            }
            (Node::Const(c), Node::ZExt(q)) => {
                let wq = self.w(q);
                if c > maskw(wq) {
                    return Some(self.f);
                }
                let k = self.konst(c, wq);
                return Some(self.bin(op, k, q));
            }
            _ => {}
        }
        // concat(p,q) < c, with c's high part h: p<h || (p==h && q<l)
        if let (Node::Bin(Op::Concat, p, q), Some(c)) = (self.node(a), cb) {
            let wq = self.w(q);
            let h = c >> wq;
            let l = c & maskw(wq);
            if op == Op::Ult && h == 0 {
                let z = self.konst(0, self.w(p));
                let e1 = self.eq(p, z);
                let k = self.konst(l, wq);
                let e2 = self.bin(Op::Ult, q, k);
                return Some(self.and(e1, e2));
            }
            if op == Op::Ult && l == 0 {
                let k = self.konst(h, self.w(p));
                return Some(self.bin(Op::Ult, p, k));
            }
        }
        if let (Some(c), Node::Bin(Op::Concat, p, q)) = (ca, self.node(b)) {
            let wq = self.w(q);
            let h = c >> wq;
            let l = c & maskw(wq);
            if op == Op::Ult && h == 0 {
                // c < concat(p,q): p != 0 || l < q
                let z = self.konst(0, self.w(p));
                let e1 = self.eq(p, z);
                let e1 = self.not(e1);
                let k = self.konst(l, wq);
                let e2 = self.bin(Op::Ult, k, q);
                return Some(self.or(e1, e2));
            }
        }
        None
    }

    /// Evaluate under an assignment (missing variables are 0).
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.epoch += 1;
        if self.ev_epoch.len() < self.nodes.len() {
            self.ev_epoch.resize(self.nodes.len() + 1024, 0);
            self.ev_val.resize(self.nodes.len() + 1024, 0);
        }
        self.ev(e, model)
    }
    pub fn eval_all(&mut self, es: &[E], model: &[u8]) -> bool {
        self.eval(es[0], model) != 0 && es[1..].iter().all(|&e| self.ev(e, model) != 0)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let i = e as usize;
        match self.nodes[i] {
            Node::Const(c) => return c,
            Node::Var(v) => return model.get(v as usize).copied().unwrap_or(0) as u128,
            Node::InSet(v, m) => return mask_has(&self.masks[m as usize], model.get(v as usize).copied().unwrap_or(0)) as u128,
            _ => {}
        }
        if self.ev_epoch[i] == self.epoch {
            return self.ev_val[i];
        }
        let w = self.width[i];
        let r = match self.nodes[i] {
            Node::Bin(op, a, b) => {
                let x = self.ev(a, model);
                if w == 1 && (op == Op::And && x == 0 || op == Op::Or && x == 1) {
                    x
                } else {
                    let y = self.ev(b, model);
                    ev_bin(op, x, y, self.width[a as usize], self.width[b as usize])
                }
            }
            Node::Not(a) => !self.ev(a, model) & maskw(w),
            Node::Extract(a, lo) => (self.ev(a, model) >> lo) & maskw(w),
            Node::ZExt(a) => self.ev(a, model),
            Node::SExt(a) => sext(self.ev(a, model), self.width[a as usize]) as u128 & maskw(w),
            Node::Ite(c, a, b) => {
                if self.ev(c, model) != 0 {
                    self.ev(a, model)
                } else {
                    self.ev(b, model)
                }
            }
            Node::Table(t, idx) => {
                let x = self.ev(idx, model);
                self.tables[t as usize].vals.get(x as usize).copied().unwrap_or(0)
            }
            _ => unreachable!(),
        };
        self.ev_epoch[i] = self.epoch;
        self.ev_val[i] = r;
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        match self.node(e) {
            Node::Const(c) => format!("{}", c),
            Node::Var(v) => format!("v{}", v),
            Node::InSet(v, m) => format!("(v{} in set#{} |{}|)", v, m, mask_count(&self.masks[m as usize])),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, depth - 1), self.show(b, depth - 1)),
            Node::Not(a) => format!("(not {})", self.show(a, depth - 1)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, depth - 1), lo, self.w(e)),
            Node::ZExt(a) => format!("(zx{} {})", self.w(e), self.show(a, depth - 1)),
            Node::SExt(a) => format!("(sx{} {})", self.w(e), self.show(a, depth - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, depth - 1), self.show(a, depth - 1), self.show(b, depth - 1)),
            Node::Table(t, i) => format!("T{}[{}]", t, self.show(i, depth - 1)),
        }
    }
}
