//! Hash-consed bit-vector expression DAG with local simplification.
use crate::ll::{mask, sext};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const, // k
    Var,   // k = index
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,     // a=cond b c
    Zext,    // a
    Sext,    // a
    Extract, // a, k = low bit; width w
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: K,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32>,
    // evaluation memo
    ev: Vec<(u32, u64)>,
    // the one variable a node depends on, as far as computed
    dep: Vec<u32>,
    tables: HashMap<u32, std::rc::Rc<Vec<u64>>>,
    gen: u32,
}

pub const NONE: u32 = u32::MAX;
pub const MANY: u32 = u32::MAX - 1;
const UNKNOWN: u32 = u32::MAX - 2;

impl Pool {
    pub fn new() -> Self {
        Pool { nodes: vec![], map: HashMap::new(), ev: vec![], dep: vec![], tables: HashMap::new(), gen: 1 }
    }
    fn intern(&mut self, n: Node) -> u32 {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.ev.push((0, 0));
        self.map.insert(n, i);
        i
    }
    /// the variable (node) `e` depends on, NONE: on none, MANY: on several
    pub fn only_var(&mut self, e: u32) -> u32 {
        if self.dep.len() < self.nodes.len() {
            self.dep.resize(self.nodes.len(), UNKNOWN);
        }
        if self.dep[e as usize] != UNKNOWN {
            return self.dep[e as usize];
        }
        let n = self.nodes[e as usize];
        let subs: &[u32] = match n.op {
            K::Const => &[],
            K::Var => &[],
            K::Ite => &[n.a, n.b, n.c],
            K::Zext | K::Sext | K::Extract => &[n.a],
            _ => &[n.a, n.b],
        };
        let mut r = if n.op == K::Var { e } else { NONE };
        for s in subs {
            let d = self.only_var(*s);
            r = match (r, d) {
                (a, NONE) => a,
                (NONE, b) => b,
                (a, b) if a == b => a,
                _ => MANY,
            };
            if r == MANY {
                break;
            }
        }
        self.dep[e as usize] = r;
        r
    }
    /// values of an expression over one 8-bit variable, for each value of the variable
    pub fn table(&mut self, e: u32, var: u32) -> std::rc::Rc<Vec<u64>> {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        let i = self.nodes[var as usize].k as usize;
        let mut m = vec![0; i + 1];
        let mut t = vec![];
        for v in 0..256 {
            m[i] = v;
            self.new_gen();
            t.push(self.eval(e, &m));
        }
        self.new_gen();
        let t = std::rc::Rc::new(t);
        self.tables.insert(e, t.clone());
        t
    }
    pub fn w(&self, e: u32) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn cst(&mut self, v: u64, w: u32) -> u32 {
        self.intern(Node { op: K::Const, w: w as u8, a: NONE, b: NONE, c: NONE, k: mask(v, w) })
    }
    pub fn var(&mut self, idx: u32, w: u32) -> u32 {
        self.intern(Node { op: K::Var, w: w as u8, a: NONE, b: NONE, c: NONE, k: idx as u64 })
    }
    pub fn as_const(&self, e: u32) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.op == K::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, op: K, w: u32, a: u32, b: u32, c: u32, k: u64) -> u32 {
        self.intern(Node { op, w: w as u8, a, b, c, k })
    }

    pub fn not1(&mut self, a: u32) -> u32 {
        let one = self.cst(1, 1);
        self.bin(K::Xor, a, one)
    }

    pub fn fold(op: K, w: u32, x: u64, y: u64) -> Option<u64> {
        Some(match op {
            K::Add => mask(x.wrapping_add(y), w),
            K::Sub => mask(x.wrapping_sub(y), w),
            K::Mul => mask(x.wrapping_mul(y), w),
            K::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            K::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            K::SDiv => {
                if y == 0 {
                    return None;
                }
                mask(sext(x, w).wrapping_div(sext(y, w)) as u64, w)
            }
            K::SRem => {
                if y == 0 {
                    return None;
                }
                mask(sext(x, w).wrapping_rem(sext(y, w)) as u64, w)
            }
            K::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    mask(x << y, w)
                }
            }
            K::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            K::AShr => {
                let s = y.min(w as u64 - 1).min(63);
                mask((sext(x, w) >> s) as u64, w)
            }
            K::And => x & y,
            K::Or => x | y,
            K::Xor => x ^ y,
            _ => return None,
        })
    }

    pub fn bin(&mut self, op: K, mut a: u32, mut b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Pool::fold(op, w, x, y) {
                return self.cst(r, w);
            }
        }
        let comm = matches!(op, K::Add | K::Mul | K::And | K::Or | K::Xor);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let _ = ca;
        let ones = mask(u64::MAX, w);
        if let Some(y) = cb {
            match op {
                K::Add | K::Sub | K::Or | K::Xor | K::Shl | K::LShr | K::AShr if y == 0 => return a,
                K::And if y == 0 => return self.cst(0, w),
                K::Mul if y == 0 => return self.cst(0, w),
                K::Mul if y == 1 => return a,
                K::UDiv if y == 1 => return a,
                K::And if y == ones => return a,
                K::Or if y == ones => return b,
                K::Shl | K::LShr if y >= w as u64 => return self.cst(0, w),
                K::Sub => {
                    let n = self.cst(mask(0u64.wrapping_sub(y), w), w);
                    return self.bin(K::Add, a, n);
                }
                _ => {}
            }
            let na = self.nodes[a as usize];
            // (x op c1) op c2
            if na.op == op && matches!(op, K::Add | K::And | K::Or | K::Xor) {
                if let Some(c1) = self.as_const(na.b) {
                    let c = Pool::fold(op, w, c1, y).unwrap();
                    let c = self.cst(c, w);
                    return self.bin(op, na.a, c);
                }
            }
            // and(zext(x), c) where c covers x entirely
            if op == K::And && na.op == K::Zext {
                let wx = self.w(na.a);
                let m = mask(u64::MAX, wx);
                if y & m == m {
                    return a;
                }
                if y <= m {
                    let c = self.cst(y, wx);
                    let r = self.bin(K::And, na.a, c);
                    return self.zext(r, w);
                }
            }
            // ite(c, k1, k2) op k
            if na.op == K::Ite {
                if let (Some(p), Some(q)) = (self.as_const(na.b), self.as_const(na.c)) {
                    if let (Some(p), Some(q)) = (Pool::fold(op, w, p, y), Pool::fold(op, w, q, y)) {
                        let p = self.cst(p, w);
                        let q = self.cst(q, w);
                        return self.ite(na.a, p, q);
                    }
                }
            }
            // lshr/shl of zext by const => via extract/concat
            if op == K::LShr {
                let hi = self.extract(a, y as u32, w - y as u32);
                return self.zext(hi, w);
            }
            if op == K::Shl {
                let lo = self.extract(a, 0, w - y as u32);
                let z = self.cst(0, y as u32);
                return self.concat(lo, z);
            }
        }
        if a == b {
            match op {
                K::And | K::Or => return a,
                K::Xor | K::Sub => return self.cst(0, w),
                _ => {}
            }
        }
        // or of disjoint concat/zext parts: concat(x,0) | zext(y)
        if op == K::Or {
            if let Some(r) = self.merge_or(a, b, w) {
                return r;
            }
            if let Some(r) = self.merge_or(b, a, w) {
                return r;
            }
        }
        if w == 1 {
            // boolean simplifications with complement
            if matches!(op, K::And | K::Or) {
                let one = self.cst(1, 1);
                let na = self.bin(K::Xor, a, one);
                if na == b {
                    return self.cst(if op == K::And { 0 } else { 1 }, 1);
                }
            }
        }
        self.raw(op, w, a, b, NONE, 0)
    }
    fn merge_or(&mut self, a: u32, b: u32, w: u32) -> Option<u32> {
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        if na.op == K::Concat && self.as_const(na.b) == Some(0) && nb.op == K::Zext {
            let lowz = self.w(na.b);
            let wy = self.w(nb.a);
            if wy <= lowz {
                let lo = self.zext(nb.a, lowz);
                let r = self.concat(na.a, lo);
                debug_assert_eq!(self.w(r), w);
                return Some(r);
            }
        }
        None
    }
    pub fn cmp(&mut self, op: K, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = match op {
                K::Eq => x == y,
                K::Ult => x < y,
                K::Ule => x <= y,
                K::Slt => sext(x, w) < sext(y, w),
                K::Sle => sext(x, w) <= sext(y, w),
                _ => unreachable!(),
            };
            return self.cst(r as u64, 1);
        }
        if a == b {
            return self.cst(matches!(op, K::Eq | K::Ule | K::Sle) as u64, 1);
        }
        let (mut a, mut b) = (a, b);
        if op == K::Eq {
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
            if let Some(y) = self.as_const(b) {
                let na = self.nodes[a as usize];
                if w == 1 {
                    return if y == 1 { a } else { self.not1(a) };
                }
                match na.op {
                    K::Zext => {
                        let wx = self.w(na.a);
                        if y > mask(u64::MAX, wx) {
                            return self.cst(0, 1);
                        }
                        let c = self.cst(y, wx);
                        return self.cmp(K::Eq, na.a, c);
                    }
                    K::Sext => {
                        let wx = self.w(na.a);
                        let t = mask(y, wx);
                        if mask(sext(t, wx) as u64, w) != y {
                            return self.cst(0, 1);
                        }
                        let c = self.cst(t, wx);
                        return self.cmp(K::Eq, na.a, c);
                    }
                    K::Ite => {
                        let (p, q) = (self.as_const(na.b), self.as_const(na.c));
                        if let (Some(p), Some(q)) = (p, q) {
                            return match (p == y, q == y) {
                                (true, true) => self.cst(1, 1),
                                (true, false) => na.a,
                                (false, true) => self.not1(na.a),
                                (false, false) => self.cst(0, 1),
                            };
                        }
                        if let Some(p) = p {
                            if p != y {
                                let n = self.not1(na.a);
                                let e = self.cmp(K::Eq, na.c, b);
                                return self.bin(K::And, n, e);
                            } else {
                                let e = self.cmp(K::Eq, na.c, b);
                                return self.bin(K::Or, na.a, e);
                            }
                        }
                        if let Some(q) = q {
                            let e = self.cmp(K::Eq, na.b, b);
                            if q != y {
                                return self.bin(K::And, na.a, e);
                            } else {
                                let n = self.not1(na.a);
                                return self.bin(K::Or, n, e);
                            }
                        }
                    }
                    K::Add => {
                        if let Some(c1) = self.as_const(na.b) {
                            let c = self.cst(y.wrapping_sub(c1), w);
                            return self.cmp(K::Eq, na.a, c);
                        }
                    }
                    K::Xor => {
                        if let Some(c1) = self.as_const(na.b) {
                            let c = self.cst(y ^ c1, w);
                            return self.cmp(K::Eq, na.a, c);
                        }
                    }
                    K::Concat => {
                        let wl = self.w(na.b);
                        let ch = self.cst(y >> wl, w - wl);
                        let cl = self.cst(y, wl);
                        let h = self.cmp(K::Eq, na.a, ch);
                        let l = self.cmp(K::Eq, na.b, cl);
                        return self.bin(K::And, h, l);
                    }
                    _ => {}
                }
            } else {
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if na.op == K::Zext && nb.op == K::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(K::Eq, na.a, nb.a);
                }
            }
        }
        // unsigned compare with zext'd operands
        if matches!(op, K::Ult | K::Ule) {
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == K::Zext && nb.op == K::Zext && self.w(na.a) == self.w(nb.a) {
                return self.cmp(op, na.a, nb.a);
            }
            if na.op == K::Zext {
                if let Some(y) = self.as_const(b) {
                    let wx = self.w(na.a);
                    if y > mask(u64::MAX, wx) {
                        return self.cst(1, 1);
                    }
                    let c = self.cst(y, wx);
                    return self.cmp(op, na.a, c);
                }
            }
            if nb.op == K::Zext {
                if let Some(x) = self.as_const(a) {
                    let wx = self.w(nb.a);
                    if x > mask(u64::MAX, wx) {
                        return self.cst(0, 1);
                    }
                    let c = self.cst(x, wx);
                    return self.cmp(op, c, nb.a);
                }
            }
            if self.as_const(b) == Some(0) {
                if op == K::Ult {
                    return self.cst(0, 1);
                }
                let z = self.cst(0, w);
                return self.cmp(K::Eq, a, z);
            }
            if self.as_const(a) == Some(0) {
                if op == K::Ule {
                    return self.cst(1, 1);
                }
                let z = self.cst(0, w);
                let e = self.cmp(K::Eq, b, z);
                return self.not1(e);
            }
        }
        if matches!(op, K::Ult | K::Ule | K::Slt | K::Sle) {
            // ite(c,k1,k2) cmp k
            for (x, y, sw) in [(a, b, false), (b, a, true)] {
                let nx = self.nodes[x as usize];
                if nx.op == K::Ite && self.as_const(y).is_some() {
                    if self.as_const(nx.b).is_some() && self.as_const(nx.c).is_some() {
                        let (p, q) = if sw {
                            (self.cmp(op, y, nx.b), self.cmp(op, y, nx.c))
                        } else {
                            (self.cmp(op, nx.b, y), self.cmp(op, nx.c, y))
                        };
                        return self.ite(nx.a, p, q);
                    }
                }
            }
        }
        self.raw(op, 1, a, b, NONE, 0)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        // ite(!c, a, b)
        let nc = self.nodes[c as usize];
        if nc.op == K::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(K::Or, c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(K::And, n, b);
                }
                (None, Some(0)) => return self.bin(K::And, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(K::Or, n, a);
                }
                _ => {}
            }
        }
        self.raw(K::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: u32, w: u32) -> u32 {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.nodes[a as usize];
        if n.op == K::Const {
            return self.cst(n.k, w);
        }
        if n.op == K::Zext {
            return self.raw(K::Zext, w, n.a, NONE, NONE, 0);
        }
        if n.op == K::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let p = self.zext(n.b, w);
            let q = self.zext(n.c, w);
            return self.ite(n.a, p, q);
        }
        self.raw(K::Zext, w, a, NONE, NONE, 0)
    }
    pub fn sext(&mut self, a: u32, w: u32) -> u32 {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.nodes[a as usize];
        if n.op == K::Const {
            return self.cst(sext(n.k, wa) as u64, w);
        }
        if n.op == K::Zext {
            return self.zext(n.a, w);
        }
        if n.op == K::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let p = self.sext(n.b, w);
            let q = self.sext(n.c, w);
            return self.ite(n.a, p, q);
        }
        self.raw(K::Sext, w, a, NONE, NONE, 0)
    }
    pub fn extract(&mut self, a: u32, lo: u32, w: u32) -> u32 {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        let n = self.nodes[a as usize];
        match n.op {
            K::Const => return self.cst(n.k >> lo, w),
            K::Extract => return self.extract(n.a, lo + n.k as u32, w),
            K::Zext => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.cst(0, w);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            K::Sext => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            K::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            K::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let p = self.extract(n.b, lo, w);
                    let q = self.extract(n.c, lo, w);
                    return self.ite(n.a, p, q);
                }
            }
            K::And | K::Or | K::Xor => {
                if self.as_const(n.b).is_some() {
                    let p = self.extract(n.a, lo, w);
                    let q = self.extract(n.b, lo, w);
                    return self.bin(n.op, p, q);
                }
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let p = self.extract(n.a, 0, w);
                let q = self.extract(n.b, 0, w);
                return self.bin(n.op, p, q);
            }
            _ => {}
        }
        self.raw(K::Extract, w, a, NONE, NONE, lo as u64)
    }
    pub fn concat(&mut self, h: u32, l: u32) -> u32 {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if nh.op == K::Const && nl.op == K::Const {
            return self.cst((nh.k << wl) | nl.k, w);
        }
        if nh.op == K::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == K::Extract {
            // adjacent extract of the same expression
            if nl.op == K::Extract && nl.a == nh.a && nl.k + wl as u64 == nh.k {
                return self.extract(nh.a, nl.k as u32, w);
            }
            if l == nh.a && false {
                return h;
            }
        }
        // concat(extract(x, wl, ..), x') where l == extract folded to narrower x
        if nl.op == K::Concat {
            let n = self.concat(h, nl.a);
            let nn = self.nodes[n as usize];
            if nn.op != K::Concat || nn.a != h {
                return self.concat(n, nl.b);
            }
        }
        self.raw(K::Concat, w, h, l, NONE, 0)
    }

    pub fn new_gen(&mut self) {
        self.gen += 1;
    }
    /// evaluate under a model; memo valid until `new_gen`
    pub fn eval(&mut self, e: u32, model: &[u64]) -> u64 {
        let (g, v) = self.ev[e as usize];
        if g == self.gen {
            return v;
        }
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let r = match n.op {
            K::Const => n.k,
            K::Var => mask(model.get(n.k as usize).copied().unwrap_or(0), w),
            K::Ite => {
                if self.eval(n.a, model) != 0 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            K::Zext => self.eval(n.a, model),
            K::Sext => {
                let wa = self.w(n.a);
                mask(sext(self.eval(n.a, model), wa) as u64, w)
            }
            K::Extract => mask(self.eval(n.a, model) >> n.k, w),
            K::Concat => {
                let wl = self.w(n.b);
                (self.eval(n.a, model) << wl) | self.eval(n.b, model)
            }
            K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                let wa = self.w(n.a);
                let x = self.eval(n.a, model);
                let y = self.eval(n.b, model);
                (match n.op {
                    K::Eq => x == y,
                    K::Ult => x < y,
                    K::Ule => x <= y,
                    K::Slt => sext(x, wa) < sext(y, wa),
                    _ => sext(x, wa) <= sext(y, wa),
                }) as u64
            }
            op => {
                let x = self.eval(n.a, model);
                let y = self.eval(n.b, model);
                match Pool::fold(op, w, x, y) {
                    Some(r) => r,
                    // SMT-LIB semantics of division by zero
                    None => match op {
                        K::UDiv => mask(u64::MAX, w),
                        K::SDiv => {
                            if sext(x, w) >= 0 {
                                mask(u64::MAX, w)
                            } else {
                                1
                            }
                        }
                        _ => x,
                    },
                }
            }
        };
        self.ev[e as usize] = (self.gen, r);
        r
    }
}
