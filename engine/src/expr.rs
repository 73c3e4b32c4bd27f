//! Hash-consed bit-vector expressions over symbolic bytes.
//!
//! Every expression that depends on exactly one symbolic byte also carries its
//! complete value table (256 entries); such expressions are canonicalised by
//! table, so semantically equal ones are the same node.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];

pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn dom_andn(a: &Dom, b: &Dom) -> Dom {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn dom_empty(d: &Dom) -> bool {
    d[0] | d[1] | d[2] | d[3] == 0
}
pub fn dom_has(d: &Dom, v: u8) -> bool {
    d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn dom_set(d: &mut Dom, v: u8) {
    d[(v >> 6) as usize] |= 1 << (v & 63);
}
pub fn dom_iter(d: &Dom) -> impl Iterator<Item = u8> + '_ {
    (0..4).flat_map(move |i| {
        let mut w = d[i];
        std::iter::from_fn(move || {
            if w == 0 {
                None
            } else {
                let b = w.trailing_zeros();
                w &= w - 1;
                Some((i as u32 * 64 + b) as u8)
            }
        })
    })
}
pub fn dom_first(d: &Dom) -> u8 {
    dom_iter(d).next().unwrap_or(0)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Table,
    Add,
    Sub,
    Mul,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    Shl,
    Lshr,
    Ashr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Select,
    Zext,
    Sext,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    Ctpop,
    Cttz,
    Ctlz,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

pub struct Node {
    pub key: Key,
    pub deps: u64,
    /// for single-dependency nodes
    pub var: u32,
    pub table: Option<Rc<[u64; 256]>>,
    /// for w == 1 single-dependency nodes: set of byte values that make it 1
    pub mask: Dom,
}

pub fn mask_w(w: u8) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
pub fn sext(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    keys: HashMap<Key, E>,
    tabs: HashMap<(u32, u8, Box<[u64; 256]>), E>,
}

pub fn eval(op: Op, w: u8, aw: u8, bw: u8, a: u64, b: u64, c: u64, k: u64) -> u64 {
    let m = mask_w(w);
    (match op {
        Op::Const | Op::Var | Op::Table => k,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::Udiv => a.checked_div(b).unwrap_or(m),
        Op::Urem => a.checked_rem(b).unwrap_or(a),
        Op::Sdiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { u64::MAX } } else { x.wrapping_div(y) as u64 }
        }
        Op::Srem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { x as u64 } else { x.wrapping_rem(y) as u64 }
        }
        Op::Shl => {
            if b >= w as u64 { 0 } else { a << b }
        }
        Op::Lshr => {
            if b >= w as u64 { 0 } else { a >> b }
        }
        Op::Ashr => {
            let s = b.min(w as u64 - 1);
            (sext(a, w) >> s) as u64
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u64,
        Op::Select => {
            if a & 1 == 1 { b } else { c }
        }
        Op::Zext => a,
        Op::Sext => sext(a, aw) as u64,
        Op::Extract => a >> k,
        Op::Concat => (if bw >= 64 { 0 } else { a << bw }) | b,
        Op::Ctpop => a.count_ones() as u64,
        Op::Cttz => {
            if a == 0 { w as u64 } else { a.trailing_zeros() as u64 }
        }
        Op::Ctlz => {
            if a == 0 { w as u64 } else { a.leading_zeros() as u64 - (64 - w as u64) }
        }
    }) & m
}

impl Arena {
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].key.w
    }
    pub fn cval(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.key.op == Op::Const { Some(n.key.k) } else { None }
    }
    pub fn single(&self, e: E) -> bool {
        self.nodes[e as usize].table.is_some()
    }
    pub fn constant(&mut self, v: u64, w: u8) -> E {
        let key = Key { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask_w(w) };
        if let Some(&e) = self.keys.get(&key) {
            return e;
        }
        self.push(key, 0, 0, None)
    }
    fn push(&mut self, key: Key, deps: u64, var: u32, table: Option<Rc<[u64; 256]>>) -> E {
        let e = self.nodes.len() as E;
        let mut mask = [0; 4];
        if key.w == 1
            && let Some(t) = &table
        {
            for (i, v) in t.iter().enumerate() {
                if v & 1 == 1 {
                    dom_set(&mut mask, i as u8);
                }
            }
        }
        self.nodes.push(Node { key: key.clone(), deps, var, table, mask });
        self.keys.insert(key, e);
        e
    }
    pub fn var(&mut self, i: u32) -> E {
        let key = Key { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u64 };
        if let Some(&e) = self.keys.get(&key) {
            return e;
        }
        let t: Vec<u64> = (0..256).collect();
        let arr: [u64; 256] = t.try_into().unwrap();
        let e = self.push(key, 1 << i, i, Some(Rc::new(arr)));
        self.tabs.insert((i, 8, Box::new(arr)), e);
        e
    }
    /// node for an arbitrary function of one byte
    pub fn table(&mut self, var: u32, w: u8, t: [u64; 256], orig: Option<Key>) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.constant(t[0], w);
        }
        let bk = Box::new(t);
        if let Some(&e) = self.tabs.get(&(var, w, bk.clone())) {
            if let Some(k) = orig {
                self.keys.insert(k, e);
            }
            return e;
        }
        let key = orig.unwrap_or(Key { op: Op::Table, w, a: var, b: 0, c: 0, k: self.nodes.len() as u64 });
        let e = self.push(key, 1 << var, var, Some(Rc::new(t)));
        self.tabs.insert((var, w, bk), e);
        e
    }
    pub fn mk(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> E {
        let key = Key { op, w, a, b, c, k };
        if let Some(&e) = self.keys.get(&key) {
            return e;
        }
        let nargs = match op {
            Op::Zext | Op::Sext | Op::Extract | Op::Ctpop | Op::Cttz | Op::Ctlz => 1,
            Op::Select => 3,
            _ => 2,
        };
        let mut deps = self.nodes[a as usize].deps;
        if nargs > 1 {
            deps |= self.nodes[b as usize].deps;
        }
        if nargs > 2 {
            deps |= self.nodes[c as usize].deps;
        }
        let aw = self.w(a);
        let bw = if nargs > 1 { self.w(b) } else { 0 };
        if deps == 0 {
            let av = self.nodes[a as usize].key.k;
            let bv = if nargs > 1 { self.nodes[b as usize].key.k } else { 0 };
            let cv = if nargs > 2 { self.nodes[c as usize].key.k } else { 0 };
            let v = eval(op, w, aw, bw, av, bv, cv, k);
            return self.constant(v, w);
        }
        if deps.count_ones() == 1 {
            let var = deps.trailing_zeros();
            let mut t = [0u64; 256];
            let ta = self.tab_of(a);
            let tb = if nargs > 1 { self.tab_of(b) } else { T::C(0) };
            let tc = if nargs > 2 { self.tab_of(c) } else { T::C(0) };
            for (i, o) in t.iter_mut().enumerate() {
                *o = eval(op, w, aw, bw, ta.get(i), tb.get(i), tc.get(i), k);
            }
            let e = self.table(var, w, t, Some(key.clone()));
            self.keys.insert(key, e);
            return e;
        }
        if let Some(e) = self.simp(op, w, a, b, c, k) {
            self.keys.insert(key, e);
            return e;
        }
        self.push(key, deps, 0, None)
    }
    fn tab_of(&self, e: E) -> T {
        let n = &self.nodes[e as usize];
        match &n.table {
            Some(t) => T::T(t.clone()),
            None => T::C(n.key.k),
        }
    }
    /// simplifications for expressions over several bytes
    fn simp(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> Option<E> {
        let (ca, cb) = (
            self.cval(a),
            match op {
                Op::Zext | Op::Sext | Op::Extract | Op::Ctpop | Op::Cttz | Op::Ctlz => None,
                _ => self.cval(b),
            },
        );
        let m = mask_w(w);
        match op {
            Op::And => {
                if a == b {
                    return Some(a);
                }
                for (x, y) in [(ca, b), (cb, a)] {
                    if let Some(v) = x {
                        if v == 0 {
                            return Some(self.constant(0, w));
                        }
                        if v == m {
                            return Some(y);
                        }
                        // distribute a constant mask over a concat
                        if self.nodes[y as usize].key.op == Op::Concat {
                            let ky = self.nodes[y as usize].key.clone();
                            let (hw, lw) = (self.w(ky.a), self.w(ky.b));
                            let hc = self.constant(v >> lw, hw);
                            let lc = self.constant(v, lw);
                            let h = self.mk(Op::And, hw, ky.a, hc, 0, 0);
                            let l = self.mk(Op::And, lw, ky.b, lc, 0, 0);
                            return Some(self.mk(Op::Concat, w, h, l, 0, 0));
                        }
                    }
                }
            }
            Op::Or | Op::Xor => {
                if a == b {
                    return Some(if op == Op::Or { a } else { self.constant(0, w) });
                }
                for (x, y) in [(ca, b), (cb, a)] {
                    if let Some(v) = x {
                        if v == 0 {
                            return Some(y);
                        }
                        if op == Op::Or && v == m {
                            return Some(self.constant(m, w));
                        }
                        if self.nodes[y as usize].key.op == Op::Concat {
                            let ky = self.nodes[y as usize].key.clone();
                            let (hw, lw) = (self.w(ky.a), self.w(ky.b));
                            let hc = self.constant(v >> lw, hw);
                            let lc = self.constant(v, lw);
                            let h = self.mk(op, hw, ky.a, hc, 0, 0);
                            let l = self.mk(op, lw, ky.b, lc, 0, 0);
                            return Some(self.mk(Op::Concat, w, h, l, 0, 0));
                        }
                    }
                }
                // or of two concats split at the same point
                let (na, nb) = (self.nodes[a as usize].key.clone(), self.nodes[b as usize].key.clone());
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let (hw, lw) = (self.w(na.a), self.w(na.b));
                    let h = self.mk(op, hw, na.a, nb.a, 0, 0);
                    let l = self.mk(op, lw, na.b, nb.b, 0, 0);
                    return Some(self.mk(Op::Concat, w, h, l, 0, 0));
                }
            }
            Op::Add | Op::Sub | Op::Shl | Op::Lshr | Op::Ashr => {
                if cb == Some(0) {
                    return Some(a);
                }
                if op == Op::Add && ca == Some(0) {
                    return Some(b);
                }
                if op == Op::Sub && a == b {
                    return Some(self.constant(0, w));
                }
                if let Some(s) = cb {
                    if op == Op::Lshr && s < w as u64 {
                        let x = self.mk(Op::Extract, w - s as u8, a, 0, 0, s);
                        return Some(self.mk(Op::Zext, w, x, 0, 0, 0));
                    }
                    if op == Op::Shl && s < w as u64 {
                        let x = self.mk(Op::Extract, w - s as u8, a, 0, 0, 0);
                        let z = self.constant(0, s as u8);
                        return Some(self.mk(Op::Concat, w, x, z, 0, 0));
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return Some(self.constant(1, 1));
                }
                let aw = self.w(a);
                for (x, y) in [(ca, b), (cb, a)] {
                    let Some(v) = x else { continue };
                    let ky = self.nodes[y as usize].key.clone();
                    match ky.op {
                        Op::Concat => {
                            let (hw, lw) = (self.w(ky.a), self.w(ky.b));
                            let hc = self.constant(v >> lw, hw);
                            let lc = self.constant(v, lw);
                            let h = self.mk(Op::Eq, 1, ky.a, hc, 0, 0);
                            let l = self.mk(Op::Eq, 1, ky.b, lc, 0, 0);
                            return Some(self.mk(Op::And, 1, h, l, 0, 0));
                        }
                        Op::Zext => {
                            let iw = self.w(ky.a);
                            if v > mask_w(iw) {
                                return Some(self.constant(0, 1));
                            }
                            let cc = self.constant(v, iw);
                            return Some(self.mk(Op::Eq, 1, ky.a, cc, 0, 0));
                        }
                        Op::Xor => {
                            if v == 0 {
                                return Some(self.mk(Op::Eq, 1, ky.a, ky.b, 0, 0));
                            }
                        }
                        Op::Or if v == 0 => {
                            let z = self.constant(0, aw);
                            let h = self.mk(Op::Eq, 1, ky.a, z, 0, 0);
                            let l = self.mk(Op::Eq, 1, ky.b, z, 0, 0);
                            return Some(self.mk(Op::And, 1, h, l, 0, 0));
                        }
                        Op::Select => {
                            let cc = self.constant(v, aw);
                            let t = self.mk(Op::Eq, 1, ky.b, cc, 0, 0);
                            let f = self.mk(Op::Eq, 1, ky.c, cc, 0, 0);
                            return Some(self.mk(Op::Select, 1, ky.a, t, f, 0));
                        }
                        _ => {}
                    }
                    if aw == 1 {
                        return Some(if v == 1 { y } else { self.not(y) });
                    }
                }
                let (na, nb) = (self.nodes[a as usize].key.clone(), self.nodes[b as usize].key.clone());
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.mk(Op::Eq, 1, na.a, nb.a, 0, 0);
                    let l = self.mk(Op::Eq, 1, na.b, nb.b, 0, 0);
                    return Some(self.mk(Op::And, 1, h, l, 0, 0));
                }
            }
            Op::Ult | Op::Slt => {
                if a == b {
                    return Some(self.constant(0, 1));
                }
            }
            Op::Select => {
                if let Some(v) = ca {
                    return Some(if v & 1 == 1 { b } else { c });
                }
                if b == c {
                    return Some(b);
                }
                if w == 1 {
                    let cc = self.cval(c);
                    match (cb, cc) {
                        (Some(1), Some(0)) => return Some(a),
                        (Some(0), Some(1)) => return Some(self.not(a)),
                        (Some(0), _) => {
                            let n = self.not(a);
                            return Some(self.mk(Op::And, 1, n, c, 0, 0));
                        }
                        (Some(1), _) => return Some(self.mk(Op::Or, 1, a, c, 0, 0)),
                        (_, Some(0)) => return Some(self.mk(Op::And, 1, a, b, 0, 0)),
                        (_, Some(1)) => {
                            let n = self.not(a);
                            return Some(self.mk(Op::Or, 1, n, b, 0, 0));
                        }
                        _ => {}
                    }
                }
            }
            Op::Zext => {
                let iw = self.w(a);
                if iw == w {
                    return Some(a);
                }
                let z = self.constant(0, w - iw);
                return Some(self.mk(Op::Concat, w, z, a, 0, 0));
            }
            Op::Sext => {
                if self.w(a) == w {
                    return Some(a);
                }
            }
            Op::Extract => {
                let iw = self.w(a);
                if k == 0 && iw == w {
                    return Some(a);
                }
                let n = self.nodes[a as usize].key.clone();
                match n.op {
                    Op::Concat => {
                        let lw = self.w(n.b) as u64;
                        if k >= lw {
                            return Some(self.mk(Op::Extract, w, n.a, 0, 0, k - lw));
                        }
                        if k + w as u64 <= lw {
                            return Some(self.mk(Op::Extract, w, n.b, 0, 0, k));
                        }
                        let lpart = (lw - k) as u8;
                        let l = self.mk(Op::Extract, lpart, n.b, 0, 0, k);
                        let h = self.mk(Op::Extract, w - lpart, n.a, 0, 0, 0);
                        return Some(self.mk(Op::Concat, w, h, l, 0, 0));
                    }
                    Op::Extract => return Some(self.mk(Op::Extract, w, n.a, 0, 0, k + n.k)),
                    Op::And | Op::Or | Op::Xor => {
                        let x = self.mk(Op::Extract, w, n.a, 0, 0, k);
                        let y = self.mk(Op::Extract, w, n.b, 0, 0, k);
                        return Some(self.mk(n.op, w, x, y, 0, 0));
                    }
                    Op::Add | Op::Sub if k == 0 => {
                        let x = self.mk(Op::Extract, w, n.a, 0, 0, k);
                        let y = self.mk(Op::Extract, w, n.b, 0, 0, k);
                        return Some(self.mk(n.op, w, x, y, 0, 0));
                    }
                    Op::Select => {
                        let x = self.mk(Op::Extract, w, n.b, 0, 0, k);
                        let y = self.mk(Op::Extract, w, n.c, 0, 0, k);
                        return Some(self.mk(Op::Select, w, n.a, x, y, 0));
                    }
                    _ => {}
                }
            }
            Op::Concat => {
                let (na, nb) = (self.nodes[a as usize].key.clone(), self.nodes[b as usize].key.clone());
                if na.op == Op::Extract
                    && nb.op == Op::Extract
                    && na.a == nb.a
                    && na.k == nb.k + nb.w as u64
                {
                    return Some(self.mk(Op::Extract, w, na.a, 0, 0, nb.k));
                }
                // right-nested canonical form is not needed; merge constants high
                if ca.is_some() && nb.op == Op::Concat && self.cval(nb.a).is_some() {
                    let hw = self.w(a) + self.w(nb.a);
                    let h = self.mk(Op::Concat, hw, a, nb.a, 0, 0);
                    return Some(self.mk(Op::Concat, w, h, nb.b, 0, 0));
                }
                // concat(h, concat(m, l)) -> concat(concat(h, m), l)
                if nb.op == Op::Concat {
                    let hw = self.w(a) + self.w(nb.a);
                    let h = self.mk(Op::Concat, hw, a, nb.a, 0, 0);
                    return Some(self.mk(Op::Concat, w, h, nb.b, 0, 0));
                }
            }
            _ => {}
        }
        None
    }
    pub fn not(&mut self, e: E) -> E {
        let one = self.constant(1, 1);
        self.mk(Op::Xor, 1, e, one, 0, 0)
    }
    pub fn args(&self, e: E) -> Vec<E> {
        let k = &self.nodes[e as usize].key;
        match k.op {
            Op::Const | Op::Var | Op::Table => vec![],
            Op::Zext | Op::Sext | Op::Extract | Op::Ctpop | Op::Cttz | Op::Ctlz => vec![k.a],
            Op::Select => vec![k.a, k.b, k.c],
            _ => vec![k.a, k.b],
        }
    }
    pub fn eval_model(&self, e: E, model: &[u8]) -> u64 {
        let n = &self.nodes[e as usize];
        if let Some(t) = &n.table {
            return t[model[n.var as usize] as usize];
        }
        let k = &n.key;
        if k.op == Op::Const {
            return k.k;
        }
        let a = self.args(e);
        let v: Vec<u64> = a.iter().map(|x| self.eval_model(*x, model)).collect();
        let aw = self.w(a[0]);
        let bw = if a.len() > 1 { self.w(a[1]) } else { 0 };
        eval(
            k.op,
            k.w,
            aw,
            bw,
            v[0],
            v.get(1).copied().unwrap_or(0),
            v.get(2).copied().unwrap_or(0),
            k.k,
        )
    }
}

enum T {
    C(u64),
    T(Rc<[u64; 256]>),
}
impl T {
    #[inline]
    fn get(&self, i: usize) -> u64 {
        match self {
            T::C(v) => *v,
            T::T(t) => t[i],
        }
    }
}
